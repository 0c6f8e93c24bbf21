package vsim

// Dict holds the literals of the code under test; the fresh ones are those
// that the tree the harness was written for does not have.
var Dict struct {
	Sall, Sfresh []string
	Iall, Ifresh []int64
	Dall, Dfresh []int64
	Eall, Efresh []string // names of errors
}
