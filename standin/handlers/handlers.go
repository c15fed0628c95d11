// Package handlers stands in for github.com/gorilla/handlers, which cannot be
// fetched here: what generated servers refer to, so that they compile.
package handlers

import (
	"io"
	"net/http"
)

type CORSOption func(*int) error

func CombinedLoggingHandler(out io.Writer, h http.Handler) http.Handler { return h }

func CORS(opts ...CORSOption) func(http.Handler) http.Handler {
	return func(h http.Handler) http.Handler { return h }
}

func AllowedOrigins(l []string) CORSOption { return func(*int) error { return nil } }
func AllowedHeaders(l []string) CORSOption { return func(*int) error { return nil } }
func AllowedMethods(l []string) CORSOption { return func(*int) error { return nil } }
