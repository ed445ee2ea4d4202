package zzverifsim

import (
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"encoding/xml"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"time"
)

// AWS RDS and Performance Insights endpoints over TLS.

type AWSSpec struct {
	Region    string
	AccessKey string
	SecretKey string
	Token     string `json:",omitempty"`
	Instances []InstSpec
	RdsPage   int  // instances per page, 0 = all
	PiPage    int  // metrics per page, 0 = all
	PiSplit   bool `json:",omitempty"` // all metrics of the first half of the period come before those of the second
	PiEmpty   bool
	RpcMs     int64
	Chatty    bool // also send zero points, points without value, and the overall metric
}

type InstSpec struct {
	ID      string
	ResID   string
	Status  string
	Engine  string
	Metrics []MetricSpec
}

type MetricSpec struct {
	Group  string // db.sql db.sql_tokenized
	SQL    string
	TokID  string
	Points []PtSpec
}

type PtSpec struct {
	T int64 // unix seconds
	V float64
}

type PIReq struct {
	Limit      int
	ResID      string
	Group      string
	Metric     string
	Start, End float64
	Period     int64
	Token      string
	Ok         bool
	Points     int
}

type AWSFinal struct {
	PI   []PIReq
	RDS  int
	Bad  []string
	Auth bool
}

type awsState struct {
	w    *World
	spec *AWSSpec
	pi   []*PIReq
	rds  int
	bad  []string
}

func (a *awsState) final() *AWSFinal {
	f := &AWSFinal{RDS: a.rds, Bad: a.bad}
	for _, r := range a.pi {
		f.PI = append(f.PI, *r)
	}
	return f
}

// simCA makes the (fixed) certificate of the simulated hosts.
func simCA(hosts ...string) (tls.Certificate, []byte) { return simCert("", hosts...) }

// simCert makes a certificate with something wrong about it.
func simCert(bad string, hosts ...string) (tls.Certificate, []byte) {
	seed := make([]byte, 32)
	copy(seed, "gravityr simulated certificate")
	if bad == "ca" {
		copy(seed, "somebody else")
	}
	till := time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC)
	switch bad {
	case "host":
		hosts = []string{"other.example.net"}
	case "expired":
		till = time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	key := ed25519.NewKeyFromSeed(seed)
	t := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "sim"},
		NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: till,
		IsCA: true, BasicConstraintsValid: true, DNSNames: hosts,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	der, err := x509.CreateCertificate(nil, t, t, key.Public(), key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

func (a *AWSSpec) hosts() []string {
	return []string{"rds." + a.Region + ".amazonaws.com", "pi." + a.Region + ".amazonaws.com"}
}

func (w *World) countBadCert() {
	if w.sc.BadCert != "" {
		w.fired["handshake/bad_certificate_"+w.sc.BadCert]++
	}
}

// caPEM is what the process under test trusts.
func (sc *Scenario) caPEM() []byte {
	switch {
	case sc.AWS != nil:
		hs := sc.AWS.hosts()
		_, b := simCA(hs...)
		if sc.BadCert == "host" || sc.BadCert == "expired" { // issued by the trusted one
			_, b = simCert(sc.BadCert, hs...)
		}
		return b
	case sc.DB != nil && sc.DB.TLS:
		h := hostOf(sc.DB.Addr)
		_, b := simCA(h)
		if sc.BadCert == "host" || sc.BadCert == "expired" {
			_, b = simCert(sc.BadCert, h)
		}
		return b
	}
	return nil
}

func hostOf(addr string) string { return addr[:strings.LastIndex(addr, ":")] }

type tlsListener struct {
	*simListener
	cfg *tls.Config
}

func (l *tlsListener) Accept() (net.Conn, error) {
	c, err := l.simListener.Accept()
	if err != nil {
		return nil, err
	}
	return tls.Server(c, l.cfg), nil
}

func (w *World) serveAWS() {
	a := &awsState{w: w, spec: w.sc.AWS}
	w.aws = a
	cert, _ := simCert(w.sc.BadCert, w.sc.AWS.hosts()...)
	w.countBadCert()
	for _, h := range w.sc.AWS.hosts() {
		h := h
		l := &tlsListener{w.listen(h + ":443"), &tls.Config{Certificates: []tls.Certificate{cert}}}
		srv := &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { a.serve(h, rw, r) })}
		go srv.Serve(l)
	}
}

func (a *awsState) serve(host string, rw http.ResponseWriter, r *http.Request) {
	w := a.w
	body, err := io.ReadAll(r.Body)
	if err != nil || w.frozen {
		return
	}
	isPI := strings.HasPrefix(host, "pi.")
	class := "rds"
	if isPI {
		class = "pi"
	}
	auth := r.Header.Get("Authorization")
	badAuth := sigV4(r, host, body, a.spec)
	if badAuth != "" {
		a.bad = append(a.bad, class+": "+auth)
		w.log(Event{Kind: "bad-credential", Class: class, Text: badAuth})
	}
	var text string
	var rq *PIReq
	var in struct {
		Identifier      string
		ServiceType     string
		StartTime       float64
		EndTime         float64
		PeriodInSeconds int64
		NextToken       string
		MaxResults      int
		MetricQueries   []struct {
			Metric  string
			GroupBy struct {
				Group string
				Limit int
			}
		}
	}
	form := map[string]string{}
	if isPI {
		json.Unmarshal(body, &in)
		rq = &PIReq{ResID: in.Identifier, Start: in.StartTime, End: in.EndTime, Period: in.PeriodInSeconds, Token: in.NextToken}
		if len(in.MetricQueries) > 0 {
			rq.Limit = in.MetricQueries[0].GroupBy.Limit
			rq.Group, rq.Metric = in.MetricQueries[0].GroupBy.Group, in.MetricQueries[0].Metric
		}
		text = fmt.Sprintf("%s %s %.3f %.3f %s", rq.ResID, rq.Group, rq.Start, rq.End, rq.Token)
	} else {
		r.Body = io.NopCloser(strings.NewReader(string(body)))
		r.ParseForm()
		for k, v := range r.Form {
			form[k] = v[0]
		}
		text = form["Action"] + " " + form["Marker"]
	}
	nth, dec := w.admit(class, text)
	kind := ""
	if dec.fault != nil {
		kind = dec.fault.Kind
	}
	if dec.resetBefore {
		w.done(class, nth, false, "reset")
		a.raw(rw, nil)
		return
	}
	if a.spec.RpcMs > 0 {
		time.Sleep(time.Duration(a.spec.RpcMs) * time.Millisecond)
	}
	status := 200
	var out []byte
	fail := func(st int, code, msg string) {
		status = st
		if isPI {
			out, _ = json.Marshal(map[string]string{"__type": code, "message": msg})
			rw.Header().Set("X-Amzn-Errortype", code)
		} else {
			out = []byte(fmt.Sprintf(`<ErrorResponse xmlns="http://rds.amazonaws.com/doc/2014-10-31/"><Error><Type>Sender</Type><Code>%s</Code><Message>%s</Message></Error><RequestId>r</RequestId></ErrorResponse>`, code, msg))
		}
	}
	switch {
	case badAuth != "":
		fail(403, "SignatureDoesNotMatch", "The request signature we calculated does not match the signature you provided")
	case kind == "throttle":
		fail(400, "ThrottlingException", "Rate exceeded")
	case kind == "denied":
		if isPI {
			fail(400, "NotAuthorizedException", "not authorized")
		} else {
			fail(403, "AccessDenied", "not authorized")
		}
	case dec.status != 0:
		code := "InternalFailure"
		if isPI {
			code = "InternalServiceError"
		}
		if dec.fault != nil && dec.fault.Text != "" {
			code = dec.fault.Text
		}
		fail(dec.status, code, "injected")
	case isPI:
		a.metrics(rq, in.NextToken, &status, &out, fail)
	default:
		out = a.instances(form, fail)
	}
	ok := status == 200
	if isPI {
		rq.Ok = ok
		a.pi = append(a.pi, rq)
	} else {
		a.rds++
	}
	if dec.badBody != "" && ok {
		out = []byte(dec.badBody)
		ok = false
	}
	if w.frozen {
		return
	}
	if isPI {
		rw.Header().Set("Content-Type", "application/x-amz-json-1.1")
	} else {
		rw.Header().Set("Content-Type", "text/xml")
	}
	// An answer of RDS is whole once its result element is closed: the SDK reads no further, so a cut
	// behind it loses nothing.
	whole := len(out)
	if i := strings.Index(string(out), "</DescribeDBInstancesResult>"); i >= 0 {
		whole = i + 1
	}
	if dec.resetAfter || dec.cutAt >= 0 && dec.cutAt < whole {
		if isPI {
			rq.Ok = false
		}
		w.done(class, nth, false, "cut")
		if dec.resetAfter {
			a.raw(rw, nil)
			return
		}
		head := fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: application/x-amz-json-1.1\r\nContent-Length: %d\r\n\r\n", len(out))
		a.raw(rw, append([]byte(head), out[:dec.cutAt]...))
		return
	}
	w.done(class, nth, ok, "")
	rw.Header().Set("Content-Length", strconv.Itoa(len(out)))
	rw.WriteHeader(status)
	rw.Write(out)
}

func (a *awsState) raw(rw http.ResponseWriter, b []byte) {
	c, _, err := rw.(http.Hijacker).Hijack()
	if err != nil {
		a.w.note("hijack: " + err.Error())
		return
	}
	if len(b) > 0 {
		c.Write(b)
	}
	c.(*tls.Conn).NetConn().(*simConn).abort()
}

func (a *awsState) instances(form map[string]string, fail func(int, string, string)) []byte {
	if form["Action"] != "DescribeDBInstances" {
		fail(400, "InvalidAction", form["Action"])
		return nil
	}
	filters := map[string]map[string]bool{}
	for k, v := range form {
		if strings.HasPrefix(k, "Filters.Filter.") && strings.HasSuffix(k, ".Name") {
			vals := map[string]bool{}
			pre := strings.TrimSuffix(k, "Name") + "Values."
			for k2, v2 := range form {
				if strings.HasPrefix(k2, pre) {
					vals[v2] = true
				}
			}
			filters[v] = vals
		}
	}
	match := func(in InstSpec) bool {
		f, ok := filters["engine"]
		return !ok || f[in.Engine]
	}
	hit := a.spec.Instances // pages may be cut before the filter is applied: some are then short or empty
	if a.spec.RdsPage != 2 {
		hit = nil
		for _, in := range a.spec.Instances {
			if match(in) {
				hit = append(hit, in)
			}
		}
	}
	start := 0
	if m := form["Marker"]; m != "" {
		k, err := strconv.Atoi(strings.TrimPrefix(m, "mark+/= &amp;"))
		if err != nil || k > len(hit) {
			fail(400, "InvalidParameterValue", "bad marker")
			return nil
		}
		start = k
	}
	page := a.spec.RdsPage
	if n, err := strconv.Atoi(form["MaxRecords"]); err == nil && n > 0 && (page == 0 || n < page) {
		page = n
	}
	end := len(hit)
	marker := ""
	if page > 0 && start+page < end {
		end = start + page
		marker = fmt.Sprintf("<Marker>mark+/= &amp;amp;%d</Marker>", end)
	}
	var b strings.Builder
	b.WriteString(`<DescribeDBInstancesResponse xmlns="http://rds.amazonaws.com/doc/2014-10-31/"><DescribeDBInstancesResult><DBInstances>`)
	for _, in := range hit[start:end] {
		if !match(in) {
			continue
		}
		esc := func(s string) string { var o strings.Builder; xml.EscapeText(&o, []byte(s)); return o.String() }
		fmt.Fprintf(&b, "<DBInstance><DBInstanceIdentifier>%s</DBInstanceIdentifier><Engine>%s</Engine><DBInstanceStatus>%s</DBInstanceStatus><DbiResourceId>%s</DbiResourceId><PerformanceInsightsEnabled>true</PerformanceInsightsEnabled></DBInstance>", esc(in.ID), esc(in.Engine), esc(in.Status), esc(in.ResID))
	}
	b.WriteString("</DBInstances>" + marker + `</DescribeDBInstancesResult><ResponseMetadata><RequestId>r</RequestId></ResponseMetadata></DescribeDBInstancesResponse>`)
	return []byte(b.String())
}

// Performance Insights extends the asked-for time range to full periods and labels each data
// point with the end of its period: a request covers (floor5(start), ceil5(end)].
func ceil5(t float64) int64 {
	s := int64(t)
	if float64(s) < t {
		s++
	}
	return (s + 299) / 300 * 300
}

func floor5(t float64) int64 { return int64(t) / 300 * 300 }

func (a *awsState) metrics(rq *PIReq, token string, status *int, out *[]byte, fail func(int, string, string)) {
	var inst *InstSpec
	for i := range a.spec.Instances {
		if a.spec.Instances[i].ResID == rq.ResID {
			inst = &a.spec.Instances[i]
		}
	}
	if inst == nil {
		fail(400, "InvalidArgumentException", "unknown resource")
		return
	}
	if rq.Metric != "db.load.avg" && rq.Metric != "db.sampledload.avg" || rq.Limit > 25 || rq.End <= rq.Start {
		fail(400, "InvalidArgumentException", "bad argument")
		return
	}
	per := rq.Period
	switch per {
	case 1, 60, 300, 3600, 86400:
	default:
		fail(400, "InvalidArgumentException", "bad period")
		return
	}
	if per < 300 {
		per = 300
	}
	lo := int64(rq.Start) / per * per
	hi := (ceil5(rq.End) + per - 1) / per * per
	type dp struct {
		Timestamp float64
		Value     *float64 `json:",omitempty"`
	}
	type metric struct {
		Key struct {
			Metric     string
			Dimensions map[string]string `json:",omitempty"`
		}
		DataPoints []dp
	}
	var ms []metric
	var loads []float64
	total := 0
	for _, m := range inst.Metrics {
		if m.Group != rq.Group {
			continue
		}
		var x metric
		x.Key.Metric = rq.Metric
		if m.Group == "db.sql" {
			x.Key.Dimensions = map[string]string{"db.sql.id": fmt.Sprintf("ID%016X", hashStr(m.SQL)), "db.sql.statement": m.SQL, "db.sql.tokenized_id": m.TokID, "db.sql.db_id": "pi-" + m.TokID}
		} else {
			x.Key.Dimensions = map[string]string{"db.sql_tokenized.id": m.TokID, "db.sql_tokenized.statement": m.SQL, "db.sql_tokenized.db_id": "pi-" + m.TokID}
		}
		sum := map[int64]float64{}
		for _, p := range m.Points {
			if p.T > lo && p.T <= hi {
				v := p.V
				if rq.Metric != "db.load.avg" {
					v /= 2
				}
				t := (p.T + per - 1) / per * per
				sum[t] += v * 300 / float64(per)
				total++
			}
		}
		var ts []int64
		for t := range sum {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
		load := 0.0
		for _, t := range ts {
			v := sum[t]
			load += v
			for k := int64(1); rq.Period < 300 && k < 300/rq.Period; k++ {
				u := v
				x.DataPoints = append(x.DataPoints, dp{float64(t - 300 + k*rq.Period), &u})
			}
			x.DataPoints = append(x.DataPoints, dp{float64(t), &v})
		}
		if a.spec.Chatty {
			z := 0.0
			used := map[int64]bool{}
			for _, p := range m.Points {
				used[p.T] = true
			}
			for t := lo + 300; t <= hi; t += 3600 * 2 {
				if !used[t] {
					x.DataPoints = append(x.DataPoints, dp{float64(t), &z})
				}
				if !used[t+300] && t+300 <= hi {
					x.DataPoints = append(x.DataPoints, dp{float64(t + 300), nil})
				}
			}
			sort.Slice(x.DataPoints, func(i, j int) bool { return x.DataPoints[i].Timestamp < x.DataPoints[j].Timestamp })
		}
		if len(x.DataPoints) > 0 {
			ms = append(ms, x)
			loads = append(loads, load)
		}
	}
	// only the statements with the highest load in the range are returned
	limit := rq.Limit
	if limit == 0 {
		limit = 10
	}
	for len(ms) > limit {
		k := 0
		for i := range loads {
			if loads[i] <= loads[k] {
				k = i
			}
		}
		ms, loads = append(ms[:k], ms[k+1:]...), append(loads[:k], loads[k+1:]...)
	}
	if a.spec.Chatty {
		var x metric
		x.Key.Metric = rq.Metric
		v := 1.25
		x.DataPoints = []dp{{float64(lo + 300), &v}}
		ms = append([]metric{x}, ms...)
	}
	if a.spec.PiSplit {
		var one, two []metric
		for _, m := range ms {
			x := m
			x.DataPoints = nil
			y := x
			for _, p := range m.DataPoints {
				if p.Timestamp <= float64(lo+hi)/2 {
					x.DataPoints = append(x.DataPoints, p)
				} else {
					y.DataPoints = append(y.DataPoints, p)
				}
			}
			if len(x.DataPoints) > 0 {
				one = append(one, x)
			}
			if len(y.DataPoints) > 0 {
				two = append(two, y)
			}
		}
		ms = append(one, two...)
	}
	rq.Points = total
	start := 0
	empty := a.spec.PiEmpty && !strings.HasSuffix(token, "e")
	if token != "" {
		k, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(token, "tok+/= -"), "e"))
		if err != nil || k > len(ms) {
			fail(400, "InvalidArgumentException", "bad token")
			return
		}
		start = k
	}

	end := len(ms)
	res := map[string]any{"AlignedStartTime": float64(lo), "AlignedEndTime": float64(hi), "Identifier": rq.ResID}
	if a.spec.PiPage > 0 && start+a.spec.PiPage < end {
		end = start + a.spec.PiPage
		res["NextToken"] = fmt.Sprintf("tok+/= -%d", end)
	}
	if empty && len(ms) > 0 { // a page without metrics before the one that has them
		end = start
		res["NextToken"] = fmt.Sprintf("tok+/= -%de", start)
	}
	if ms == nil {
		ms = []metric{}
	}
	res["MetricList"] = ms[start:end]
	*out, _ = json.Marshal(res)
}

// sigV4 checks a request's signature with the configured secret; "" = valid.
func sigV4(r *http.Request, host string, body []byte, spec *AWSSpec) string {
	auth := r.Header.Get("Authorization")
	rest, ok := strings.CutPrefix(auth, "AWS4-HMAC-SHA256 ")
	if !ok {
		return "no signature"
	}
	f := map[string]string{}
	for _, p := range strings.Split(rest, ",") {
		k, v, _ := strings.Cut(strings.TrimSpace(p), "=")
		f[k] = v
	}
	cr := strings.Split(f["Credential"], "/")
	if len(cr) != 5 || cr[0] != spec.AccessKey {
		return "credential " + f["Credential"]
	}
	svc := "rds"
	if strings.HasPrefix(host, "pi.") {
		svc = "pi"
	}
	if cr[2] != spec.Region || cr[3] != svc || cr[4] != "aws4_request" {
		return "scope " + f["Credential"]
	}
	if r.Header.Get("X-Amz-Security-Token") != spec.Token {
		return "session token"
	}
	date := r.Header.Get("X-Amz-Date")
	if !strings.HasPrefix(date, cr[1]) {
		return "date"
	}
	var hs strings.Builder
	for _, h := range strings.Split(f["SignedHeaders"], ";") {
		v := strings.Join(r.Header.Values(h), ",")
		switch h {
		case "host":
			v = r.Host
		case "content-length":
			v = strconv.Itoa(len(body))
		}
		hs.WriteString(h + ":" + strings.Join(strings.Fields(v), " ") + "\n")
	}
	hx := func(b []byte) string { s := sha256.Sum256(b); return hex.EncodeToString(s[:]) }
	canon := r.Method + "\n/\n" + r.URL.RawQuery + "\n" + hs.String() + "\n" + f["SignedHeaders"] + "\n" + hx(body)
	sts := "AWS4-HMAC-SHA256\n" + date + "\n" + strings.Join(cr[1:], "/") + "\n" + hx([]byte(canon))
	key := []byte("AWS4" + spec.SecretKey)
	for _, p := range append(append([]string{}, cr[1:]...), sts) {
		m := hmac.New(sha256.New, key)
		m.Write([]byte(p))
		key = m.Sum(nil)
	}
	if hex.EncodeToString(key) != f["Signature"] {
		return "signature"
	}
	return ""
}
