//go:build verifhttp

package main

import "net/http"

func init() { httpAbort = http.ErrAbortHandler }
