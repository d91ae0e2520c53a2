// Package mux stands in for github.com/gorilla/mux 1.8.
package mux

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"path"
	"regexp"
	"strings"
)

var (
	ErrMethodMismatch = errors.New("method is not allowed")
	ErrNotFound       = errors.New("no matching route was found")
)

type RouteMatch struct {
	Route    *Route
	Handler  http.Handler
	Vars     map[string]string
	MatchErr error
}

type Router struct {
	NotFoundHandler         http.Handler
	MethodNotAllowedHandler http.Handler
	routes                  []*Route
	useEncodedPath          bool
	skipClean               bool
	strictSlash             bool
}

func NewRouter() *Router { return &Router{} }

func (r *Router) UseEncodedPath() *Router    { r.useEncodedPath = true; return r }
func (r *Router) SkipClean(v bool) *Router   { r.skipClean = v; return r }
func (r *Router) StrictSlash(v bool) *Router { r.strictSlash = v; return r }
func (r *Router) NewRoute() *Route {
	rt := &Route{router: r}
	r.routes = append(r.routes, rt)
	return rt
}
func (r *Router) Methods(m ...string) *Route             { return r.NewRoute().Methods(m...) }
func (r *Router) PathPrefix(tpl string) *Route           { return r.NewRoute().PathPrefix(tpl) }
func (r *Router) MatcherFunc(f MatcherFunc) *Route       { return r.NewRoute().MatcherFunc(f) }
func (r *Router) Headers(pairs ...string) *Route         { return r.NewRoute().Headers(pairs...) }
func (r *Router) Path(tpl string) *Route                 { return r.NewRoute().Path(tpl) }
func (r *Router) Handle(p string, h http.Handler) *Route { return r.NewRoute().Path(p).Handler(h) }
func (r *Router) HandleFunc(p string, f func(http.ResponseWriter, *http.Request)) *Route {
	return r.NewRoute().Path(p).HandlerFunc(f)
}

func cleanPath(p string) string {
	if p == "" {
		return "/"
	}
	if p[0] != '/' {
		p = "/" + p
	}
	np := path.Clean(p)
	if p[len(p)-1] == '/' && np != "/" {
		np += "/"
	}
	return np
}

func (r *Router) Match(req *http.Request, match *RouteMatch) bool {
	for _, route := range r.routes {
		if route.Match(req, match) {
			return true
		}
	}
	if match.MatchErr == ErrMethodMismatch {
		if r.MethodNotAllowedHandler != nil {
			match.Handler = r.MethodNotAllowedHandler
			return true
		}
		return false
	}
	if r.NotFoundHandler != nil {
		match.Handler = r.NotFoundHandler
		match.MatchErr = ErrNotFound
		return true
	}
	match.MatchErr = ErrNotFound
	return false
}

func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	if !r.skipClean {
		p := req.URL.Path
		if r.useEncodedPath {
			p = req.URL.EscapedPath()
		}
		if c := cleanPath(p); c != p {
			url := *req.URL
			url.Path = c
			w.Header().Set("Location", url.String())
			w.WriteHeader(http.StatusMovedPermanently)
			return
		}
	}
	var match RouteMatch
	var handler http.Handler
	if r.Match(req, &match) {
		handler = match.Handler
		req = req.WithContext(context.WithValue(context.WithValue(req.Context(), varsKey, match.Vars), routeKey, match.Route))
	}
	if handler == nil && match.MatchErr == ErrMethodMismatch {
		handler = http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) { w.WriteHeader(http.StatusMethodNotAllowed) })
	}
	if handler == nil {
		handler = http.NotFoundHandler()
	}
	handler.ServeHTTP(w, req)
}

type contextKey int

const (
	varsKey contextKey = iota
	routeKey
)

func Vars(r *http.Request) map[string]string {
	if rv := r.Context().Value(varsKey); rv != nil {
		return rv.(map[string]string)
	}
	return nil
}

func CurrentRoute(r *http.Request) *Route {
	if rv := r.Context().Value(routeKey); rv != nil {
		return rv.(*Route)
	}
	return nil
}

// MatcherFunc is a matcher given by the user of a route.
type MatcherFunc func(*http.Request, *RouteMatch) bool

// matcher: exactly one of the three is set.
type matcher struct {
	methods []string
	path    *pathRegexp
	other   MatcherFunc
}

type pathRegexp struct {
	re       *regexp.Regexp
	names    []string
	slash    bool // a missing or additional slash is redirected
	endSlash bool
}

type Route struct {
	router   *Router
	handler  http.Handler
	matchers []matcher
	name     string
	err      error
}

func (r *Route) GetError() error { return r.err }
func (r *Route) Name(n string) *Route {
	r.name = n
	return r
}
func (r *Route) Handler(h http.Handler) *Route {
	if r.err == nil {
		r.handler = h
	}
	return r
}
func (r *Route) HandlerFunc(f func(http.ResponseWriter, *http.Request)) *Route {
	return r.Handler(http.HandlerFunc(f))
}
func (r *Route) Methods(methods ...string) *Route {
	up := make([]string, len(methods))
	for i, m := range methods {
		up[i] = strings.ToUpper(m)
	}
	if r.err == nil {
		r.matchers = append(r.matchers, matcher{methods: up})
	}
	return r
}
func (r *Route) MatcherFunc(f MatcherFunc) *Route {
	if r.err == nil {
		r.matchers = append(r.matchers, matcher{other: f})
	}
	return r
}
func (r *Route) Headers(pairs ...string) *Route {
	if len(pairs)%2 != 0 {
		r.err = fmt.Errorf("mux: number of parameters must be multiple of 2, got %v", pairs)
		return r
	}
	return r.MatcherFunc(func(req *http.Request, _ *RouteMatch) bool {
		for i := 0; i < len(pairs); i += 2 {
			values, ok := req.Header[http.CanonicalHeaderKey(pairs[i])]
			if !ok {
				return false
			}
			found := pairs[i+1] == ""
			for _, v := range values {
				found = found || v == pairs[i+1]
			}
			if !found {
				return false
			}
		}
		return true
	})
}
func (r *Route) Path(tpl string) *Route       { return r.path(tpl, false) }
func (r *Route) PathPrefix(tpl string) *Route { return r.path(tpl, true) }
func (r *Route) path(tpl string, prefix bool) *Route {
	if r.err != nil {
		return r
	}
	if len(tpl) > 0 && tpl[0] != '/' {
		r.err = fmt.Errorf("mux: path must start with a slash, got %q", tpl)
		return r
	}
	re, err := newPathRegexp(tpl, prefix, r.router.strictSlash && !prefix)
	if err == nil {
		seen := map[string]bool{}
		for _, m := range r.matchers {
			if m.path != nil {
				for _, n := range m.path.names {
					seen[n] = true
				}
			}
		}
		for _, n := range re.names {
			if seen[n] {
				err = fmt.Errorf("mux: duplicated route variable %q", n)
			}
		}
	}
	if err != nil {
		r.err = err
		return r
	}
	r.matchers = append(r.matchers, matcher{path: re})
	return r
}

func braceIndices(s string) ([]int, error) {
	var level, idx int
	var idxs []int
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '{':
			if level++; level == 1 {
				idx = i
			}
		case '}':
			if level--; level == 0 {
				idxs = append(idxs, idx, i+1)
			} else if level < 0 {
				return nil, fmt.Errorf("mux: unbalanced braces in %q", s)
			}
		}
	}
	if level != 0 {
		return nil, fmt.Errorf("mux: unbalanced braces in %q", s)
	}
	return idxs, nil
}

func newPathRegexp(tpl string, prefix, strictSlash bool) (*pathRegexp, error) {
	idxs, err := braceIndices(tpl)
	if err != nil {
		return nil, err
	}
	template := tpl
	endSlash := false
	if strictSlash && strings.HasSuffix(tpl, "/") {
		tpl = tpl[:len(tpl)-1]
		endSlash = true
	}
	var names []string
	pattern := "^"
	var end int
	for i := 0; i < len(idxs); i += 2 {
		raw := tpl[end:idxs[i]]
		end = idxs[i+1]
		parts := strings.SplitN(tpl[idxs[i]+1:end-1], ":", 2)
		name, patt := parts[0], "[^/]+"
		if len(parts) == 2 {
			patt = parts[1]
		}
		if name == "" || patt == "" {
			return nil, fmt.Errorf("mux: missing name or pattern in %q", tpl[idxs[i]:end])
		}
		pattern += fmt.Sprintf("%s(?P<v%d>%s)", regexp.QuoteMeta(raw), i/2, patt)
		names = append(names, name)
	}
	pattern += regexp.QuoteMeta(tpl[end:])
	if strictSlash {
		pattern += "[/]?"
	}
	if !prefix {
		pattern += "$"
	}
	re, err := regexp.Compile(pattern)
	if err != nil {
		return nil, err
	}
	if re.NumSubexp() != len(idxs)/2 {
		panic(fmt.Sprintf("route %s contains capture groups in its regexp. Only non-capturing groups are accepted: e.g. (?:pattern) instead of (pattern)", template))
	}
	return &pathRegexp{re: re, names: names, slash: strictSlash, endSlash: endSlash}, nil
}

func (r *Route) pathOf(req *http.Request) string {
	if r.router.useEncodedPath {
		return req.URL.EscapedPath()
	}
	return req.URL.Path
}

func (r *Route) Match(req *http.Request, match *RouteMatch) bool {
	if r.err != nil {
		return false
	}
	var matchErr error
	for _, m := range r.matchers {
		if m.other != nil {
			if !m.other(req, match) {
				return false
			}
			continue
		}
		if m.path == nil {
			ok := false
			for _, s := range m.methods {
				ok = ok || s == req.Method
			}
			if !ok {
				matchErr = ErrMethodMismatch
			}
			continue
		}
		if !m.path.re.MatchString(r.pathOf(req)) {
			if match.MatchErr == ErrNotFound {
				match.MatchErr = nil
			}
			return false
		}
	}
	if matchErr != nil {
		match.MatchErr = matchErr
		return false
	}
	if match.MatchErr == ErrMethodMismatch && r.handler != nil {
		match.MatchErr = nil
		match.Handler = r.handler
	}
	if match.Route == nil {
		match.Route = r
	}
	if match.Handler == nil {
		match.Handler = r.handler
	}
	if match.Vars == nil {
		match.Vars = map[string]string{}
	}
	for _, m := range r.matchers {
		if m.path != nil {
			p := r.pathOf(req)
			if ix := m.path.re.FindStringSubmatchIndex(p); len(ix) > 0 {
				for i, n := range m.path.names {
					match.Vars[n] = p[ix[2*i+2]:ix[2*i+3]]
				}
				if m.path.slash && strings.HasSuffix(p, "/") != m.path.endSlash {
					u := *req.URL
					if m.path.endSlash {
						u.Path += "/"
					} else {
						u.Path = u.Path[:len(u.Path)-1]
					}
					match.Handler = http.RedirectHandler(u.String(), http.StatusMovedPermanently)
				}
			}
		}
	}
	return true
}
