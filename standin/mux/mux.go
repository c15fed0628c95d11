// Package mux stands in for github.com/gorilla/mux, which cannot be fetched
// here: the part of it that generated servers use.  Routes are tried in the
// order in which they were added; a variable {name} matches one non-empty path
// segment, or the part of one that the rest of the template leaves.
package mux

import (
	"context"
	"net/http"
	"regexp"
	"strings"
)

type Router struct {
	NotFoundHandler         http.Handler
	MethodNotAllowedHandler http.Handler
	routes                  []*Route
}

type Route struct {
	re      *regexp.Regexp
	names   []string
	methods []string
	handler http.Handler
}

type key int

func NewRouter() *Router { return &Router{} }

func (r *Router) HandleFunc(path string, f func(http.ResponseWriter, *http.Request)) *Route {
	route := &Route{handler: http.HandlerFunc(f)}
	pat := "^"
	for path != "" {
		i := strings.Index(path, "{")
		j := strings.Index(path, "}")
		if i < 0 || j < i {
			pat += regexp.QuoteMeta(path)
			break
		}
		name, expr := path[i+1:j], "[^/]+"
		if k := strings.Index(name, ":"); k >= 0 {
			name, expr = name[:k], name[k+1:]
		}
		pat += regexp.QuoteMeta(path[:i]) + "(" + expr + ")"
		route.names = append(route.names, name)
		path = path[j+1:]
	}
	route.re = regexp.MustCompile(pat + "$")
	r.routes = append(r.routes, route)
	return route
}

func (r *Route) Methods(m ...string) *Route {
	r.methods = append(r.methods, m...)
	return r
}

func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	wrongMethod := false
	for _, route := range r.routes {
		m := route.re.FindStringSubmatch(req.URL.Path)
		if m == nil {
			continue
		}
		ok := len(route.methods) == 0
		for _, x := range route.methods {
			if strings.ToUpper(x) == req.Method {
				ok = true
			}
		}
		if !ok {
			wrongMethod = true
			continue
		}
		vars := map[string]string{}
		for i, n := range route.names {
			vars[n] = m[i+1]
		}
		route.handler.ServeHTTP(w, req.WithContext(context.WithValue(req.Context(), key(0), vars)))
		return
	}
	if wrongMethod {
		if r.MethodNotAllowedHandler != nil {
			r.MethodNotAllowedHandler.ServeHTTP(w, req)
			return
		}
		w.WriteHeader(http.StatusMethodNotAllowed)
		return
	}
	if r.NotFoundHandler != nil {
		r.NotFoundHandler.ServeHTTP(w, req)
		return
	}
	http.NotFound(w, req)
}

// Vars returns the variables of the route of a request.
func Vars(r *http.Request) map[string]string {
	if v, ok := r.Context().Value(key(0)).(map[string]string); ok {
		return v
	}
	return nil
}
