package zzverifsim

import (
	"context"
	"encoding/hex"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/gogo/protobuf/types"
	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	commonv1 "github.com/jaegertracing/jaeger/proto-gen/otel/common/v1"
	resourcev1 "github.com/jaegertracing/jaeger/proto-gen/otel/resource/v1"
	tracev1 "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/keepalive"
	"google.golang.org/grpc/status"
)

// A Jaeger query service (api_v3 over gRPC) holding a fixed set of traces.

type JaegerSpec struct {
	MaxAgeMs    int64 `json:",omitempty"` // the server asks clients to reconnect after this time
	Addr        string
	Traces      []TraceSpec
	Shuffle     uint64 // order of traces in the answers
	SpanShuffle uint64 // order and grouping of spans in the answers
	RpcMs       int64
}

type TraceSpec struct {
	ID    string // 32 hex digits
	Spans []SpanSpec
}

type SpanSpec struct {
	ID      string // 16 hex digits
	Parent  string `json:",omitempty"` // "" = zero parent id
	Name    string
	Service string
	Start   int64 // unix ns
	End     int64
	DB      string `json:",omitempty"` // db.system
	Extra   int    `json:",omitempty"` // further attributes of assorted types
	KB      int    `json:",omitempty"` // size of an attribute with a long value
}

type JReq struct {
	Service  string
	Min, Max int64
	Dur      int64
	Num      int
	Sent     int
	Matching int
	Ok       bool
}

type JaegerFinal struct{ Reqs []JReq }

type jaegerState struct {
	w     *World
	spec  *JaegerSpec
	reqs  []*JReq
	conns []*simConn
}

func (j *jaegerState) final() *JaegerFinal {
	f := &JaegerFinal{}
	for _, r := range j.reqs {
		f.Reqs = append(f.Reqs, *r)
	}
	return f
}

type jListener struct {
	*simListener
	j *jaegerState
}

func (l *jListener) Accept() (net.Conn, error) {
	c, err := l.simListener.Accept()
	if err == nil {
		l.j.conns = append(l.j.conns, c.(*simConn))
	}
	return c, err
}

func (w *World) serveJaeger(l *simListener) {
	w.jg = &jaegerState{w: w, spec: w.sc.Jaeger}
	var opts []grpc.ServerOption
	if ms := w.sc.Jaeger.MaxAgeMs; ms > 0 {
		w.fired["find/goaway"]++
		opts = append(opts, grpc.KeepaliveParams(keepalive.ServerParameters{MaxConnectionAge: time.Duration(ms) * time.Millisecond, MaxConnectionAgeGrace: time.Hour}))
	}
	s := grpc.NewServer(opts...)
	api_v3.RegisterQueryServiceServer(s, w.jg)
	go s.Serve(&jListener{l, w.jg})
}

func ts(t *types.Timestamp) int64 {
	if t == nil {
		return 0
	}
	return t.Seconds*1e9 + int64(t.Nanos)
}

func (j *jaegerState) GetTrace(*api_v3.GetTraceRequest, api_v3.QueryService_GetTraceServer) error {
	return status.Error(codes.Unimplemented, "not simulated")
}
func (j *jaegerState) GetServices(context.Context, *api_v3.GetServicesRequest) (*api_v3.GetServicesResponse, error) {
	return nil, status.Error(codes.Unimplemented, "not simulated")
}
func (j *jaegerState) GetOperations(context.Context, *api_v3.GetOperationsRequest) (*api_v3.GetOperationsResponse, error) {
	return nil, status.Error(codes.Unimplemented, "not simulated")
}

func (j *jaegerState) abort() {
	for _, c := range j.conns {
		if !c.wclosed {
			c.abort()
		}
	}
}

func badTimes(q *api_v3.TraceQueryParameters) string {
	for _, t := range []*types.Timestamp{q.StartTimeMin, q.StartTimeMax} {
		if t == nil {
			return "start time min and max are required parameters"
		}
		if _, err := types.TimestampFromProto(t); err != nil {
			return err.Error()
		}
	}
	if q.DurationMin != nil {
		if _, err := types.DurationFromProto(q.DurationMin); err != nil {
			return err.Error()
		}
	}
	return ""
}

func (j *jaegerState) FindTraces(req *api_v3.FindTracesRequest, out api_v3.QueryService_FindTracesServer) error {
	w := j.w
	q := req.GetQuery()
	var dur int64
	if q.DurationMin != nil {
		dur = q.DurationMin.Seconds*1e9 + int64(q.DurationMin.Nanos)
	}
	r := &JReq{Service: q.ServiceName, Min: ts(q.StartTimeMin), Max: ts(q.StartTimeMax), Dur: dur, Num: int(q.NumTraces)}
	j.reqs = append(j.reqs, r)
	if bad := badTimes(q); bad != "" { // as the real service answers
		return status.Error(codes.InvalidArgument, bad)
	}
	nth, dec := w.admit("find", time.Unix(0, r.Min).UTC().Format(time.RFC3339Nano)+" "+time.Unix(0, r.Max).UTC().Format(time.RFC3339Nano))
	if dec.resetBefore {
		j.abort()
		return status.Error(codes.Unavailable, "reset")
	}
	if j.spec.RpcMs > 0 {
		time.Sleep(time.Duration(j.spec.RpcMs) * time.Millisecond)
	}
	if dec.status != 0 {
		w.done("find", nth, false, "")
		return status.Error(codes.Code(dec.status), "injected: query service failed")
	}
	var hit []*TraceSpec
	for i := range j.spec.Traces {
		t := &j.spec.Traces[i]
		if t.matches(r) {
			hit = append(hit, t)
		}
	}
	r.Matching = len(hit)
	if q.NumTraces > 0 && len(hit) > int(q.NumTraces) {
		// most recent ones first, like Jaeger's stores
		sort.SliceStable(hit, func(a, b int) bool { return hit[a].Spans[0].Start > hit[b].Spans[0].Start })
		hit = hit[:q.NumTraces]
	}
	rg := NewRng(j.spec.Shuffle, uint64(nth))
	shuffle(rg, hit)
	for k, t := range hit {
		if dec.cutAt >= 0 && k == dec.cutAt {
			break
		}
		if rg.P(4) { // a chunk that holds nothing
			if err := out.Send(&api_v3.SpansResponseChunk{}); err != nil {
				return err
			}
		}
		if err := out.Send(t.chunk(NewRng(j.spec.SpanShuffle, uint64(nth), uint64(k)))); err != nil {
			return err
		}
		r.Sent++
	}
	if dec.errMid {
		w.done("find", nth, false, "")
		return status.Error(codes.Internal, "injected: storage failed in the middle of the stream")
	}
	if dec.cutAt >= 0 || dec.resetAfter {
		w.done("find", nth, false, "")
		j.abort()
		return status.Error(codes.Unavailable, "reset")
	}
	r.Ok = true
	w.done("find", nth, true, "")
	if dec.idleClose {
		time.AfterFunc(2*time.Millisecond, j.abort)
	}
	return nil
}

func (t *TraceSpec) matches(r *JReq) bool {
	for _, s := range t.Spans {
		if s.Service == r.Service && s.End-s.Start >= r.Dur && s.Start >= r.Min && s.Start <= r.Max {
			return true
		}
	}
	return false
}

func kvs(k, v string) *commonv1.KeyValue {
	return &commonv1.KeyValue{Key: k, Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: v}}}
}

// chunk renders the trace with its spans grouped and ordered arbitrarily.
func (t *TraceSpec) chunk(rg *Rng) *api_v3.SpansResponseChunk {
	spans := append([]SpanSpec(nil), t.Spans...)
	shuffle(rg, spans)
	tid, _ := hex.DecodeString(t.ID)
	c := &api_v3.SpansResponseChunk{}
	groups := map[string]*tracev1.ResourceSpans{}
	for _, s := range spans {
		g := groups[s.Service]
		if g == nil || rg.P(30) {
			g = &tracev1.ResourceSpans{Resource: &resourcev1.Resource{Attributes: []*commonv1.KeyValue{}}}
			for _, kv := range [][2]string{{"telemetry.sdk.language", "go"}, {"service.namespace", "shop"}, {"service.version", "v1"}, {"host.name", "bff"}} {
				if rg.P(30) {
					g.Resource.Attributes = append(g.Resource.Attributes, kvs(kv[0], kv[1]))
				}
			}
			g.Resource.Attributes = append(g.Resource.Attributes, kvs("service.name", s.Service))
			if rg.P(20) {
				g.Resource.Attributes = append(g.Resource.Attributes, kvs("service.instance.id", "i-1"))
			}
			if s.Service == "" {
				g.Resource = nil
			}
			g.InstrumentationLibrarySpans = []*tracev1.InstrumentationLibrarySpans{{}}
			groups[s.Service] = g
			c.ResourceSpans = append(c.ResourceSpans, g)
		}
		sid, _ := hex.DecodeString(s.ID)
		pid := make([]byte, 8)
		if s.Parent != "" {
			pid, _ = hex.DecodeString(s.Parent)
		}
		sp := &tracev1.Span{TraceId: tid, SpanId: sid, ParentSpanId: pid, Name: s.Name,
			StartTimeUnixNano: uint64(s.Start), EndTimeUnixNano: uint64(s.End), Kind: tracev1.Span_SPAN_KIND_INTERNAL}
		if s.DB != "" {
			sp.Attributes = append(sp.Attributes, kvs("db.system", s.DB))
		}
		av := func(v *commonv1.AnyValue) {
			sp.Attributes = append(sp.Attributes, &commonv1.KeyValue{Key: "x" + string(rune('a'+len(sp.Attributes))), Value: v})
		}
		if s.KB > 0 {
			sp.Attributes = append(sp.Attributes, kvs("http.request.body", strings.Repeat("x", s.KB<<10)))
		}
		if s.Extra&1 != 0 {
			av(&commonv1.AnyValue{Value: &commonv1.AnyValue_BoolValue{BoolValue: true}})
		}
		if s.Extra&2 != 0 {
			av(&commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: 200}})
		}
		if s.Extra&4 != 0 {
			av(&commonv1.AnyValue{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: 1.5}})
		}
		if s.Extra&8 != 0 {
			av(&commonv1.AnyValue{Value: &commonv1.AnyValue_BytesValue{BytesValue: []byte{1, 2}}})
		}
		if s.Extra&16 != 0 {
			av(&commonv1.AnyValue{})
			av(&commonv1.AnyValue{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: &commonv1.ArrayValue{Values: []*commonv1.AnyValue{{Value: &commonv1.AnyValue_StringValue{StringValue: "x"}}}}}})
			av(&commonv1.AnyValue{Value: &commonv1.AnyValue_KvlistValue{KvlistValue: &commonv1.KeyValueList{Values: []*commonv1.KeyValue{kvs("k", "v")}}}})
		}
		il := g.InstrumentationLibrarySpans
		if rg.P(20) {
			il = append(il, &tracev1.InstrumentationLibrarySpans{})
			g.InstrumentationLibrarySpans = il
		}
		il[len(il)-1].Spans = append(il[len(il)-1].Spans, sp)
	}
	return c
}
