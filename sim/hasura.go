package zzverifsim

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"time"
)

// A Hasura v2 server (GraphQL, explain, run_sql) in front of the simulated PostgreSQL.

type hasuraSrv struct{ w *World }

func (w *World) serveHasura(l *simListener) {
	var ln net.Listener = l
	if w.sc.DB.TLS {
		cert, _ := simCert(w.sc.BadCert, hostOf(w.sc.DB.Addr))
		w.countBadCert()
		ln = &tlsListener{l, &tls.Config{Certificates: []tls.Certificate{cert}}}
	}
	srv := &http.Server{Handler: &hasuraSrv{w}, ConnContext: connContext, ErrorLog: log.New(io.Discard, "", 0)}
	go srv.Serve(ln)
	for i := range w.sc.Faults {
		if f := &w.sc.Faults[i]; f.Kind == "redirect" {
			w.serveElsewhere(f.Text)
		}
	}
}

// serveElsewhere is a server the command has no business with.
func (w *World) serveElsewhere(u string) {
	uu, err := url.Parse(u)
	if err != nil || uu.Scheme != "http" || uu.Port() == "" || w.listeners[uu.Host] != nil {
		return
	}
	srv := &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		w.log(Event{Kind: "elsewhere", Class: r.Method, Text: r.Host + r.URL.Path + " secret=" + r.Header.Get("x-hasura-admin-secret")})
		rw.Header().Set("Content-Type", "application/json; charset=utf-8")
		io.WriteString(rw, `{"data":{}}`)
	})}
	go srv.Serve(w.listen(uu.Host))
}

type connKey struct{}

func connContext(ctx context.Context, c net.Conn) context.Context {
	if t, ok := c.(*tls.Conn); ok {
		c = t.NetConn()
	}
	if sc, ok := c.(*simConn); ok {
		return context.WithValue(ctx, connKey{}, sc.ci)
	}
	return ctx
}

func gqlIsRead(q string) bool {
	t := strings.TrimSpace(q)
	for strings.HasPrefix(t, "#") {
		_, rest, _ := strings.Cut(t, "\n")
		t = strings.TrimSpace(rest)
	}
	if !strings.HasPrefix(t, "{") && !strings.HasPrefix(t, "query") {
		return false
	}
	// a second operation in the same document
	depth, str := 0, false
	for i := 0; i < len(t); i++ {
		switch c := t[i]; {
		case str:
			if c == '\\' {
				i++
			} else if c == '"' {
				str = false
			}
		case c == '"':
			str = true
		case c == '{' || c == '(':
			depth++
		case c == '}' || c == ')':
			depth--
		case depth == 0 && strings.HasPrefix(t[i:], "mutation"):
			return false
		}
	}
	return true
}

func (h *hasuraSrv) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	w := h.w
	spec := w.db.spec
	body, err := io.ReadAll(r.Body)
	if err != nil || w.frozen {
		return
	}
	path := strings.TrimPrefix(r.URL.Path, spec.BasePath)
	if !strings.HasPrefix(r.URL.Path, spec.BasePath+"/v") {
		w.log(Event{Kind: "off-path", Text: r.URL.Path})
		path = "/outside" + r.URL.Path
	}
	var in struct {
		Type string
		Args struct {
			SQL      string `json:"sql"`
			ReadOnly *bool  `json:"read_only"`
		}
		Query     json.RawMessage
		Variables json.RawMessage
	}
	json.Unmarshal(body, &in)
	class, text := "other", path
	var gql string
	var vars json.RawMessage
	switch path {
	case "/v1/graphql/explain":
		var q struct {
			Query     string
			Variables json.RawMessage
		}
		json.Unmarshal(in.Query, &q)
		class, gql, vars = "explain", q.Query, q.Variables
		text = "EXPLAIN " + gql
	case "/v1/graphql":
		json.Unmarshal(in.Query, &gql)
		class, vars = "exec", in.Variables
		text = gql
		if !gqlIsRead(gql) {
			class = "mutate"
		}
	case "/v2/query":
		text = in.Args.SQL
		class = w.db.classify(text)
		if class == "exec" {
			class = "other"
		}
		if sts := splitStatements(text, false); len(sts) > 1 {
			class = "mutate"
		}
	}
	nth, dec := w.admit(class, text)
	ci := -1
	if v, ok := r.Context().Value(connKey{}).(int); ok {
		ci = v
	}
	authOK := r.Header.Get("x-hasura-admin-secret") == spec.Secret
	if ci >= 0 {
		w.conns[ci].AuthOK = authOK
	}
	if !authOK {
		w.log(Event{Kind: "bad-secret", Class: class, Nth: nth})
	}
	if strings.HasPrefix(class, "e") {
		if gql != spec.Query || !sameVars([]byte(spec.Vars), vars) {
			w.log(Event{Kind: "other-query", Class: class, Nth: nth, Text: gql + string(vars)})
		}
	}
	status := 200
	var res any
	var own *liveIndex
	fail := func(code int, msg string) {
		status = code
		res = map[string]any{"path": "$", "error": msg, "code": "unexpected"}
	}
	if dec.resetBefore {
		w.done(class, nth, false, "reset")
		h.raw(rw, nil, 0, true)
		return
	}
	switch {
	case !authOK:
		fail(401, "invalid \"x-hasura-admin-secret\"/\"x-hasura-access-key\"")
	case dec.status != 0:
		fail(dec.status, "injected: service unavailable")
		if dec.location != "" {
			rw.Header().Set("Location", dec.location+r.URL.Path)
		}
	case dec.err != nil && dec.err.Fatal:
		fail(503, dec.err.Msg)
	case dec.err != nil && class == "exec":
		res = gqlErrors(dec.err.Msg)
	case dec.err != nil:
		fail(400, dec.err.Msg)
	case dec.badBody == "gql_errors" && class == "exec":
		res = gqlErrors("injected: database query error")
		if dec.partial {
			res.(map[string]any)["data"] = nil
		}
	case class == "explain":
		if !gqlIsRead(gql) {
			fail(400, "only queries can be explained")
			break
		}
		if gql != spec.Query {
			fail(400, "field not found")
			break
		}
		w.db.sleepExec()
		out := []any{}
		n := spec.ExplainN
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ { // ExplainN < 0: nothing to explain
			out = append(out, map[string]any{"field": fmt.Sprintf("f%d", i), "plan": spec.Plan, "sql": spec.SQL})
		}
		res = out
	case class == "exec":
		w.db.sleepExec()
		rows := []any{}
		for i := 0; i < spec.ResultRows; i++ {
			rows = append(rows, map[string]any{"id": i, "name": fmt.Sprintf("row%d", i)})
		}
		res = map[string]any{"data": map[string]any{"f0": rows}}
	case path == "/v1/graphql": // mutation
		w.db.mutations = append(w.db.mutations, gql)
		res = map[string]any{"data": map[string]any{"affected_rows": 1}}
	case path == "/v2/query" && in.Type == "run_sql":
		if in.Args.ReadOnly != nil && *in.Args.ReadOnly && (class == "mutate" || class == "create" || class == "drop") {
			fail(400, "cannot execute in a read-only transaction")
			break
		}
		var rr *dbResult
		var e *dbError
		for _, s := range splitStatements(text, false) {
			rr, e = w.db.run(w.db.classify(s), s, nil, "public")
			if e != nil {
				break
			}
			if rr.own != nil {
				own = rr.own
			}
		}
		if e != nil {
			status = 400
			res = map[string]any{"internal": map[string]any{"statement": text, "error": map[string]any{"message": e.Msg, "status_code": e.Code}}, "path": "$.args", "error": "query execution failed", "code": "postgres-error"}
			break
		}
		if rr == nil || rr.cols == nil {
			res = map[string]any{"result_type": "CommandOk", "result": nil}
			break
		}
		table := [][]string{rr.cols}
		for _, row := range rr.rows {
			var t []string
			for _, v := range row {
				if v == nil {
					t = append(t, "NULL")
				} else {
					t = append(t, pgText(v))
				}
			}
			table = append(table, t)
		}
		res = map[string]any{"result_type": "TuplesOk", "result": table}
	default:
		fail(404, "resource does not exist")
	}
	if w.frozen {
		return
	}
	b, _ := json.Marshal(res)
	if status == 204 || status == 304 {
		b = nil
	}
	if dec.badBody != "" && dec.badBody != "gql_errors" && status == 200 {
		b = []byte(dec.badBody)
		if dec.badBody == emptyBody {
			b = nil
		}
		own = nil
	}
	head := fmt.Sprintf("HTTP/1.1 %d %s\r\nContent-Type: application/json; charset=utf-8\r\nServer: Warp/3.3.19\r\nDate: %s\r\nContent-Length: %d\r\n\r\n",
		status, http.StatusText(status), time.Now().UTC().Format(http.TimeFormat), len(b))
	full := append([]byte(head), b...)
	ok := status == 200
	switch {
	case dec.resetAfter:
		w.done(class, nth, false, "reset")
		h.raw(rw, nil, 0, true)
		return
	case dec.cutAt >= 0 && dec.cutAt < len(full):
		w.done(class, nth, false, "cut")
		h.raw(rw, full, dec.cutAt, true)
		return
	}
	if own != nil && ok {
		own.confirmed = true
	}
	m, _ := res.(map[string]any)
	isErr := m["errors"] != nil
	w.done(class, nth, ok && !isErr && (dec.badBody == "" || dec.badBody == "gql_errors" && class != "exec"), "")
	if dec.idleClose {
		h.raw(rw, full, len(full), false)
		return
	}
	rw.Header().Set("Content-Type", "application/json; charset=utf-8")
	if len(b) > 0 {
		rw.Header().Set("Content-Length", fmt.Sprint(len(b)))
	}
	rw.WriteHeader(status)
	rw.Write(b)
}

func gqlErrors(msg string) any {
	return map[string]any{"errors": []any{map[string]any{"message": msg, "extensions": map[string]any{"path": "$", "code": "postgres-error"}}}}
}

// raw takes the connection over, sends n bytes and closes or resets it.
func (h *hasuraSrv) raw(rw http.ResponseWriter, b []byte, n int, reset bool) {
	c, _, err := rw.(http.Hijacker).Hijack()
	if err != nil {
		h.w.note("hijack: " + err.Error())
		return
	}
	if n > 0 {
		c.Write(b[:n])
	}
	if t, ok := c.(*tls.Conn); ok {
		c = t.NetConn()
	}
	sc := c.(*simConn)
	if reset {
		sc.abort()
	} else {
		sc.finNow()
	}
}

// sameVars says whether two JSON objects of variables hold the same values, whatever the notation of
// their numbers. An absent object is an empty one.
func sameVars(a, b []byte) bool {
	dec := func(x []byte) map[string]any {
		var v map[string]any
		d := json.NewDecoder(bytes.NewReader(x))
		d.UseNumber()
		d.Decode(&v)
		return v
	}
	x, y := dec(a), dec(b)
	return len(x)+len(y) == 0 || reflect.DeepEqual(exactNumbers(x), exactNumbers(y))
}

func exactNumbers(v any) any {
	switch v := v.(type) {
	case json.Number:
		if x, ok := new(big.Rat).SetString(string(v)); ok {
			return x.RatString()
		}
		return string(v)
	case []any:
		r := []any{}
		for _, x := range v {
			r = append(r, exactNumbers(x))
		}
		return r
	case map[string]any:
		r := map[string]any{}
		for k, x := range v {
			r[k] = exactNumbers(x)
		}
		return r
	case string:
		return "s:" + v
	}
	return v
}
