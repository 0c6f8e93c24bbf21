#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe_at):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=mechanism,where=files[0])],observe_at=[observe_at],hook_needed=None)))

CONV=["converter/convert.go","converter/converter.go","converter/register.go","converter/render.go","converter/escape.go","converter/ctx.go"]
PLUG=["plugin/base","plugin/commonmark","plugin/strikethrough","plugin/table","internal/domutils","internal/textutils","internal/escape","collapse","marker"]
CLI=["cli/html2markdown/cmd/exec.go","cli/html2markdown/cmd/io_input.go","cli/html2markdown/cmd/io_output.go","cli/html2markdown/cmd/cmd_convert.go","cli/html2markdown/cmd/errors.go"]

p("C01","Concurrent conversions each return exactly their solo result, race-free",
  "A Converter (with any of the bundled plugins and options) and the package-level ConvertString/ConvertReader/ConvertNode can be used from any number of goroutines at once: every conversion returns exactly the markdown the same input gives when it is converted alone in a fresh process, and none fails or panics. No memory that two goroutines reach through the library is accessed without synchronisation (no data race), whatever the elements, plugins and options involved.",
  ["schedules","inputs","configurations"],"for every interleaving of 2-5 goroutines converting documents over all bundled plugins/options through every entry point, on shared and on separate converters",
  "the existing tests convert sequentially; a lost update, a torn slice or a shared buffer needs one particular interleaving at one particular statement, and the race detector only reports pairs that a schedule makes unordered",
  CONV+["convert.go"]+PLUG,"Converter.m (RWMutex) around the registered handlers; copy-then-sort getters; no package-level mutable state","results of ConvertString/ConvertReader/ConvertNode; race reports of the Go race runtime")
p("C02","Concurrent registrations are never lost, late, early or out of order",
  "When a Register.* call (PreRenderer, Renderer, RendererFor, PostRenderer, TextTransformer, UnEscaper, EscapedChar, TagType, Plugin) runs concurrently with conversions and other registrations, every conversion that starts after the call returned uses the registration, no conversion that ended before the call began does, and no registration is ever lost or applied twice. Handlers of a kind always run in ascending priority, those of equal priority in the order in which they were registered however many there are, and these concurrent uses are free of data races.",
  ["schedules","histories"],"for every interleaving of goroutines registering handlers of each kind with goroutines converting, on one converter",
  "tests register everything before the first conversion; losing or reordering a registration needs a registration to land inside another registration or inside a lookup",
  ["converter/register.go","converter/convert.go","converter/prioritized.go","converter/converter.go","converter/plugin.go","converter/render.go","converter/escape.go"],"append under Converter.m.Lock; getters copy and sort under RLock; registeredPlugins","which handlers a conversion invoked and in what order; converted output; race reports")
p("C03","State, domain and context values belong to exactly one conversion",
  "What a handler stores with SetState/UpdateState is seen by GetState in the same conversion only, starts out empty in every conversion, and is never shared with a conversion running concurrently, nested inside a handler, run earlier, or run after one that failed or panicked. The same holds for the WithDomain domain and for caller context values: every URL is resolved against, and every handler sees, those of its own conversion, and ctx.WithValue values reach only the subtree rendered with that ctx.",
  ["schedules","histories","inputs"],"for every interleaving and nesting of conversions with different domains, context values and handler state on shared converters, including histories with failed conversions",
  "a test runs one conversion at a time, where state shared between conversions is indistinguishable from state owned by one",
  ["converter/ctx.go","converter/convert.go","converter/url.go","plugin/commonmark/render_link.go","plugin/commonmark/render_image.go","plugin/commonmark/commonmark.go"],"newGlobalState per ConvertNode; context.WithValue chain; provideDomain","handler-visible state and the converted output")
p("C04","Converter calls always return: no deadlock, lost wakeup or livelock",
  "Every conversion and registration call returns in every interleaving, including when handlers, unescapers, option functions or plugin Init methods themselves register handlers, look up tag types or start nested conversions on the same converter while other goroutines are waiting to register, and after handlers, options, readers or Init methods have panicked and been recovered. No lock of the library is held while caller-supplied code runs.",
  ["schedules","histories"],"for every interleaving of converting, registering and re-entrant goroutines on one converter, with panics at any caller-supplied callback",
  "a read lock re-acquired while a writer waits, or a lock kept across a panic, only blocks in the one schedule where the writer arrives in between; tests would hang once in thousands of runs",
  ["converter/register.go","converter/convert.go","converter/converter.go","converter/escape.go","converter/render.go","plugin/table/table.go"],"RWMutex critical sections that never span callbacks","whether each call returns in the simulation (deadlock = no runnable task; livelock = step bound)")
p("C05","A failed configuration is reported by every later conversion",
  "Once a plugin Init, an option, or a nameless plugin has failed on a converter, every conversion that starts after that call returned - through any entry point, from any goroutine, however often retried and whatever is registered afterwards - returns an error that wraps (errors.Is/As) one of the configuration errors raised so far and no markdown. A converter without render handlers, or with commonmark but without base, likewise reports an error instead of output until the missing plugin is registered, and conversions with a valid configuration never report such an error.",
  ["histories","schedules","configurations"],"for every order and interleaving of successful and failing plugin registrations with conversions and retries",
  "tests check the error once right after construction; losing or clearing the error needs a later registration, a retry, or a concurrent conversion at the right moment",
  ["converter/converter.go","converter/convert.go","converter/register.go","converter/plugin.go","plugin/commonmark/validation.go","plugin/table/table.go"],"Converter.err set by setError, read at the start of ConvertNode","error and output returned by conversions")
p("C06","A panic in caller code is contained to the conversion that raised it",
  "When a handler, reader, option function or plugin Init supplied by the caller panics at any of its invocations, the panic reaches exactly the caller of that conversion or registration with its value unchanged (a panic of the reader may instead be returned as an error), and never turns into markdown returned as success. Every other conversion, concurrent or later, on the same or another converter, still returns its normal result and later registrations still take effect.",
  ["fault_sequences","schedules","histories"],"for every position of an injected panic in the stream of callback invocations, every interleaving with other conversions, and every sequence of conversions after it",
  "tests never panic in a handler; the damage (a lock kept, a pooled buffer or shared slice left half updated) shows in another call, later or on another goroutine",
  ["converter/convert.go","converter/register.go","converter/render.go","converter/ctx.go","converter/escape.go","plugin/table/2_collect.go","plugin/commonmark/render_list.go"],"no recover in the library; state per conversion; deferred unlocks","recovered panic values; results of the conversions that follow")
p("C07","Cancellation never truncates a conversion, and handlers see the caller's ctx",
  "When the context given with WithContext is cancelled or expires at any moment before or during a conversion, the conversion returns either the complete markdown or an error matching the context's error - never shortened or altered markdown with a nil error. Handlers observe the Done, Err, Deadline and values of the context of their own conversion, and cancelling one conversion's context has no effect on any other conversion.",
  ["schedules","fault_sequences"],"for every instant of cancellation relative to the steps of the conversion, with concurrent conversions under other contexts",
  "a test can cancel before the call; cancelling between two particular render steps needs control over the schedule",
  ["converter/convert.go","converter/ctx.go","converter/render.go"],"option.context wrapped into converterContext","result and error of conversions; ctx methods inside handlers")
p("C08","ConvertReader's result does not depend on how the reader delivers bytes",
  "For any document, ConvertReader returns the same markdown however the reader splits the bytes - one byte at a time, inside multi-byte characters, entities, tags or CRLF pairs, with empty reads in between, or with data and io.EOF together - and it is the markdown of the whole document, equal to ConvertString and to ConvertNode on the parsed document. Documents of any size are converted completely, including at and beyond internal buffer sizes.",
  ["inputs","schedules"],"for every partition of every document into reads, including documents from empty to a few megabytes",
  "tests read from strings.Reader, which delivers everything in one read; a dropped or duplicated byte needs a split at one particular offset or a document beyond a buffer size",
  ["converter/convert.go","convert.go"],"html.Parse(r) in ConvertReader","output of ConvertReader for scripted readers")
p("C09","A failing reader is always reported, never silently truncated output",
  "If the reader given to ConvertReader fails at any offset - also when it returns data together with the error, when it would succeed if read again, when the error is io.ErrUnexpectedEOF or wraps io.EOF, or when it stops making progress - ConvertReader returns an error for which errors.Is finds the reader's error (io.ErrNoProgress for no progress) and no markdown. The reader is not read again after it has failed or reported io.EOF, the call terminates, and the converter is fully usable afterwards.",
  ["fault_sequences","inputs"],"for every failure offset and every failure style of the reader, for every document",
  "tests use readers that do not fail; swallowing one error style or a failure in one region of the input looks exactly like a shorter document",
  ["converter/convert.go","convert.go"],"html.Parse error returned before ConvertNode","error and output of ConvertReader for failing readers")
p("C10","Returned markdown belongs to the caller",
  "The bytes returned by ConvertNode and ConvertReader and the string of ConvertString are never changed by any later or concurrent conversion, registration or garbage collection, nor when the caller reuses the memory the input came from, and modifying or appending to returned bytes never changes the result of any other conversion. Two byte results never share memory, whatever converter, entry point, document or size they came from.",
  ["histories","schedules","inputs"],"for every history of conversions in which callers keep, overwrite and extend earlier results, from several goroutines",
  "a test compares a result immediately; reuse of a pooled or cached buffer only shows in a result kept across another conversion that happens to pick the same buffer",
  ["converter/convert.go","converter/escape.go","plugin/base/base.go","internal/textutils","convert.go"],"fresh bytes.Buffer per conversion; unEscapeContent copies","kept results re-read after later conversions")
p("C11","Same input and configuration always give the same markdown",
  "The markdown for a document is a function of the document, the options and the registered plugins only: it does not depend on map iteration order, memory reuse, garbage collection, the process, what was converted earlier or how often, or whether the converter is new or has been used before. Package-level functions and a long-lived converter with the same configuration agree.",
  ["histories","inputs"],"for every map iteration seed and every history of earlier conversions (including failed ones) in the process and on the converter",
  "each test runs in one process with one history; a dependence on map order or on a warm cache needs the seed or the predecessor that exposes it",
  CONV+PLUG+["convert.go"],"no state kept between conversions; ordered slices where order matters","output compared with a one-conversion fresh process")
p("C12","Without --output-overwrite no existing file is ever changed",
  "Without --output-overwrite the CLI never modifies, truncates, replaces or removes a file that already exists at an output path - not even when the file appears between any check and the write, and not when a system call fails or the process is killed midway - and a run that meets such a file exits nonzero and reports the conflict on stderr. With or without the flag, an input file is never modified (unless, with the flag, it is itself at an output path the command names).",
  ["schedules","crash_points","fault_sequences"],"for every interleaving of CLI runs with other processes creating files, every failing system call and every kill point",
  "tests check a file that exists before the run; a check-then-write window or a clean-up path after an error needs another process or a fault at the right system call",
  CLI,"O_CREATE|O_EXCL in WriteFile","contents of the output directory after every system call; exit status; stderr")
p("C13","Exit status 0 means every output is complete and correct",
  "The CLI exits 0 only if every input matched by --input (or stdin) was read completely and its markdown was written in full to its own output file (or stdout), byte for byte what converting that input gives. If any directory scan, read or write, or the close of an output, fails, in whatever way (including disk full after a partial write), it exits nonzero with a message on stderr; short reads, short writes and EINTR are absorbed.",
  ["fault_sequences","inputs"],"for every system call of a run and every failure it can return, singly and in combination, over single files, globs, directories, stdin and stdout",
  "tests run on a healthy disk; each ignored error or partial write is one system call whose failure they never see",
  CLI,"error returns of readInput/convert/writeOutput; os.File.Write loop; Close error kept","exit status, output files, stdout and stderr of runs with injected system-call failures")
p("C14","A failing or killed run damages nothing beyond the output being written",
  "When a run fails or is killed at any system call, then every file that is not one of its outputs, including all inputs, is unchanged and nothing is created outside the requested output location; outputs it already completed stay complete. An existing output is not touched before its own input has been read and converted successfully, and at most one output (the one being written at that moment) is left incomplete.",
  ["crash_points","fault_sequences"],"for every kill point and every failing system call of runs over one or many inputs, with and without --output-overwrite",
  "tests never kill a run; what a half-finished run leaves behind depends on the order of its system calls",
  CLI,"read, convert, then open-truncate-write per input, in order","file tree after the crash or failure compared with the model of completed outputs")
p("C15","Rerunning after a failure or crash converges to the clean result",
  "After any sequence of failed or killed runs, and whatever older or longer files they left in the output location, a rerun of the same command with --output-overwrite under a healthy disk exits 0 and leaves every output byte-identical to that of a clean run, with no stale tail, no leftover temporary files among the outputs, and no retry that keeps failing.",
  ["histories","crash_points","fault_sequences"],"for every history of faulted, killed and partial runs, followed by one healthy run",
  "tests start from an empty or clean output; a stale tail or a leftover that blocks the rerun needs the state a particular crash leaves",
  CLI,"O_TRUNC in WriteFile; MkdirAll idempotence","output tree after recovery compared with a clean run")
p("C16","Concurrent CLI runs do not interfere",
  "CLI runs started concurrently in the same directory tree each behave as if alone: runs with disjoint outputs all exit 0 with complete correct outputs, also when they create the same missing output directories at once; and of several runs without --output-overwrite aiming at the same output file, exactly one exits 0 and the file holds that run's markdown in full while the others exit nonzero.",
  ["schedules"],"for every interleaving, at system-call granularity, of 2-4 CLI runs sharing directories or outputs",
  "tests run the CLI once at a time; losing to another process between two system calls needs that interleaving",
  CLI,"os.MkdirAll tolerance of existing directories; O_EXCL create","exit statuses and output tree after all runs end")
p("C17","stdin and stdout streaming is lossless and failures are reported",
  "When input is piped, the CLI converts exactly the bytes of stdin however the pipe delivers them (any chunking, empty input, EOF with data), never a file on disk instead, and writes exactly the markdown plus a newline to stdout or exactly the markdown to --output. If reading stdin fails the CLI exits nonzero and writes no markdown and no output file; if stdout fails or accepts only part of the output it exits nonzero.",
  ["schedules","fault_sequences","inputs"],"for every chunking and failure point of stdin and of stdout, with and without --output",
  "tests use one temp file or buffer as a pipe; a failure in mid-stream or a pipe that closes early needs injected I/O",
  CLI+["cli/html2markdown/cmd/util_pipe.go","cli/html2markdown/cmd/cli_run.go"],"io.ReadAll(stdin); Fprintln(stdout)","stdout bytes, exit status and output files for simulated pipes")
p("C18","A conversion is over when its call returns",
  "When ConvertString, ConvertReader or ConvertNode returns - with markdown, with an error, because the context ended, or by a panic of caller code - everything it started has ended: none of the caller's handlers, readers, options or context values is called for it afterwards, the buffers it read into and the reader are not used again, and no goroutine of the library is left running or blocked. Within one conversion the caller's functions are called one at a time, never concurrently with each other.",
  ["schedules","fault_sequences"],"for every instant at which a conversion can fail, panic or be cancelled, in every interleaving with other conversions and registrations",
  "tests look at the result only; something that goes on after the return needs an early end at a particular moment and a schedule that runs the leftover afterwards",
  CONV+["convert.go"],"ConvertNode runs everything on the calling goroutine","calls of caller-supplied functions after the return; tasks alive at the end of a run")

NA=[]
def n(id,title,statement,why,files,reason):
    p(id,title,statement,["inputs"],"for every HTML document and configuration",why,files,"pure function of the input","converted output")
    NA.append((id,reason))
W="the golden files sample some documents; the claim is about every document"
n("N01","Markdown renders back to the same content and structure","Rendering the markdown with a CommonMark parser gives a document with the same text, links, images, emphasis, headings, lists, quotes and code as the input HTML.",W,PLUG,"pure function of one document: no schedule, clock, I/O, fault or interleaving takes part, so a simulator would only be an input generator")
n("N02","Literal text never turns into markdown syntax","With the smart escape mode, characters of text nodes never create emphasis, headings, lists, links, code, dividers or html when the markdown is rendered.",W,["converter/escape.go","internal/escape","plugin/commonmark/commonmark.go"],"pure function of one document's text; no nondeterminism or fault to simulate")
n("N03","No input makes a conversion panic or run away","Every byte sequence converts without a panic, and in time and memory bounded by a low polynomial of its size.",W,CONV+PLUG,"a property of single inputs (input generation or complexity analysis), not of schedules or faults; panics seen in any simulated run are still reported under the property being checked")
n("N04","Relative URLs are resolved against the domain","Links and images get the absolute URL that RFC 3986 resolution against WithDomain gives; absolute, data, mailto and fragment URLs keep their meaning and query order.",W,["converter/url.go","plugin/commonmark/render_link.go","plugin/commonmark/render_image.go"],"pure function of (url, domain); the part with histories and schedules - whose domain is used - is C03")
n("N05","Code is preserved verbatim","The content of pre and code elements appears in the markdown code block or span byte for byte, with a fence longer than any fence inside.",W,["plugin/commonmark/render_code.go","internal/textutils/codefence.go","internal/textutils/collapse_code.go"],"pure function of one document")
n("N06","Whitespace collapses as a browser displays it","Insignificant whitespace disappears, significant spaces between inline elements stay, and no run of more than one blank line is produced outside code.",W,["collapse","internal/textutils"],"pure function of one document")
n("N07","GFM tables keep every cell in its row and column","A converted table is a valid GFM table in which every cell keeps its position, spans are filled as configured and pipes and newlines in cells cannot break the grid.",W,["plugin/table"],"pure function of one table")
n("N08","Plugin options are validated and take effect","Every documented option value changes the output as documented and every other value is rejected with a ValidateConfigError naming the key.",W,["plugin/commonmark/validation.go","plugin/commonmark/options.go","plugin/table/table.go"],"finite pure function of the option values; that the rejection reaches every conversion is C05")
n("N09","Selectors include and exclude exactly the matching nodes","--include-selector keeps exactly the matching subtrees in document order and --exclude-selector removes exactly the matching subtrees.",W,["cli/html2markdown/cmd/cmd_convert.go"],"pure function of (document, selector)")
n("N10","Output file names are unique per input","For every set of matched inputs calculateOutputPaths gives each its own name, stable across runs.",W,["cli/html2markdown/cmd/io_output.go"],"pure function of the list of paths; that each input ends with its own complete output under faults is C13")
n("N11","Command-line arguments are parsed and rejected as documented","Unknown flags, missing dependencies between flags, repeated and empty values are rejected with the documented message before any file is touched.",W,["cli/html2markdown/cmd/flags.go","cli/html2markdown/cmd/flags_categorize.go"],"pure function of the argument list")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
json.dump(NA,open("/verif/sim/na.json","w"),indent=1)
print(len(P))
