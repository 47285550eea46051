package vrt

import "net/http"

// What programs do outside their own logic.

// LogFatal, LogFatalf and LogFatalln are log.Fatal and its kin.
func LogFatal(v ...any)                 { Fatal(1) }
func LogFatalf(format string, v ...any) { Fatal(1) }
func LogFatalln(v ...any)               { Fatal(1) }

var forever Obj

// ListenAndServe serves nobody.
func ListenAndServe(addr string, h http.Handler) error {
	if s == nil {
		return http.ListenAndServe(addr, h)
	}
	WaitUntil("serve "+addr, &forever, func() bool { return false })
	return nil
}

// Handle registers nothing.
func Handle(pattern string, h http.Handler) {
	if s == nil {
		http.Handle(pattern, h)
	}
}

// StartServer is mmf/server.StartServer that serves nobody.
func StartServer(port int32, f any) error {
	WaitUntil("serve a function", &forever, func() bool { return false })
	return nil
}
