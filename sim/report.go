package zzverifsim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
)

// Report is the data embedded in a generated HTML file.
type Report struct {
	Suggest *struct {
		MySQL    *SugData `json:"mysql"`
		Postgres *SugData `json:"postgres"`
		Hasura   *struct {
			Postgres *SugData `json:"postgres"`
		} `json:"hasura"`
	} `json:"suggestData"`
	Dig *struct {
		PI *struct {
			SQL []HourLoad `json:"sqlDbLoads"`
			Tok []HourLoad `json:"tokenizedSqlDbLoads"`
		} `json:"performanceInsights"`
		Jaeger *JaegerData `json:"jaeger"`
	} `json:"digData"`
	raw map[string]any
}

type SugData struct {
	Query    string          `json:"query"`
	Gql      string          `json:"gql"`
	Vars     json.RawMessage `json:"gqlVariables"`
	Nodes    []*PlanNode     `json:"analyzeNodes"`
	Summary  string          `json:"summaryText"`
	Indexes  []RIndex        `json:"indexTargets"`
	Options  []ROption       `json:"examinationCommandOptions"`
	Examined *RExam          `json:"examinationResult"`
}

type ROption struct {
	IsShort bool   `json:"isShort"`
	Name    string `json:"name"`
	Value   string `json:"value"`
}

type RIndex struct {
	Table string `json:"tableName"`
	Cols  []struct {
		Name string `json:"name"`
	} `json:"columns"`
}

func (r *RIndex) rename(cols []string) {
	for i := range r.Cols {
		r.Cols[i].Name = cols[i]
	}
}

func (r RIndex) T() IdxT {
	t := IdxT{Table: r.Table}
	for _, c := range r.Cols {
		t.Cols = append(t.Cols, c.Name)
	}
	return t
}

type RExam struct {
	Orig    int64 `json:"originalTimeMillis"`
	Results []struct {
		Ms  int64  `json:"executionTimeMillis"`
		Idx RIndex `json:"indexTarget"`
	} `json:"indexResults"`
}

type PlanNode struct {
	Text     string      `json:"text"`
	Title    string      `json:"title"`
	Table    string      `json:"tableName"`
	InitCost *float64    `json:"estimatedInitCost"`
	Cost     *float64    `json:"estimatedCost"`
	Rows     *int64      `json:"estimatedReturnedRows"`
	Width    *int64      `json:"estimatedWidth"`
	First    *float64    `json:"actualTimeFirstRow"`
	Avg      *float64    `json:"actualTimeAvg"`
	ActRows  *int64      `json:"actualReturnedRows"`
	Loops    *int64      `json:"actualLoopCount"`
	Children []*PlanNode `json:"children"`
}

type HourLoad struct {
	TS  int64 `json:"timestamp"`
	DBs []struct {
		Name string `json:"name"`
		Sqls []struct {
			SQL string  `json:"sql"`
			Max float64 `json:"loadMax"`
			Sum float64 `json:"loadSum"`
			Tok string  `json:"tokenizedId"`
		} `json:"sqls"`
	} `json:"databases"`
}

type JaegerData struct {
	UI    string   `json:"uiPath"`
	Slow  int      `json:"slowThresholdMilli"`
	Same  int      `json:"sameServiceThreshold"`
	SlowT []RTrace `json:"slowTraces"`
	SameT []RTrace `json:"sameServiceTraces"`
}

type RTrace struct {
	ID    string `json:"traceId"`
	Count int    `json:"sameServiceAccessCount"`
	Most  string `json:"timeConsumingServiceName"`
	Root  *RSpan `json:"root"`
}

type RSpan struct {
	Name     string   `json:"name"`
	ID       string   `json:"spanId"`
	Start    int64    `json:"startTimeMillis"`
	End      int64    `json:"endTimeMillis"`
	Service  string   `json:"serviceName"`
	Children []*RSpan `json:"children"`
}

const assetMarker = "window.grLoaded=1"
const assetStyle = "body{margin:0}"

var scriptEnd = regexp.MustCompile(`(?i)</script`)
var scriptOpen = regexp.MustCompile(`(?i)<script[^>]*>`)

// ParseReport reads a report the way a browser would: script elements end at the first </script.
func ParseReport(b []byte) (*Report, error) {
	s := string(b)
	if !regexp.MustCompile(`(?is)^\s*<!doctype html>`).MatchString(s) {
		return nil, fmt.Errorf("does not start with a doctype")
	}
	if !regexp.MustCompile(`(?is)</body>\s*</html>\s*$`).MatchString(s) {
		return nil, fmt.Errorf("does not end with </html>: incomplete (%d bytes)", len(b))
	}
	var scripts []string
	markup := ""
	rest := s
	for {
		o := scriptOpen.FindStringIndex(rest)
		if o == nil {
			break
		}
		markup += rest[:o[0]]
		rest = rest[o[1]:]
		e := scriptEnd.FindStringIndex(rest)
		if e == nil {
			return nil, fmt.Errorf("script element not closed")
		}
		scripts = append(scripts, rest[:e[0]])
		rest = rest[e[1]:]
	}
	markup = strings.ToLower(markup + rest)
	for _, m := range []string{"<!doctype", "<html", "</html>", "</body>"} {
		if n := strings.Count(markup, m); n != 1 {
			return nil, fmt.Errorf("%d times %s: not exactly one document", n, m)
		}
	}
	data := ""
	app := false
	for _, sc := range scripts {
		if i := strings.Index(sc, "window.grParam"); i >= 0 && data == "" {
			data = sc[i+len("window.grParam"):]
		}
		if strings.Contains(sc, assetMarker) {
			app = true
		}
	}
	if data == "" {
		return nil, fmt.Errorf("no embedded data")
	}
	if !app {
		return nil, fmt.Errorf("application script missing")
	}
	if !strings.Contains(s, assetStyle) {
		return nil, fmt.Errorf("style missing")
	}
	if strings.Contains(data, "<!--") {
		return nil, fmt.Errorf("raw <!-- inside the data script")
	}
	data = strings.TrimLeft(data, " \t\r\n=")
	dec := json.NewDecoder(bytes.NewReader([]byte(data)))
	var raw json.RawMessage
	if err := dec.Decode(&raw); err != nil {
		return nil, fmt.Errorf("embedded data is not JSON: %v", err)
	}
	tail := strings.Trim(data[dec.InputOffset():], " \t\r\n;")
	if tail != "" {
		return nil, fmt.Errorf("unexpected text after the embedded data: %.60q", tail)
	}
	r := &Report{}
	if err := json.Unmarshal(raw, r); err != nil {
		return nil, fmt.Errorf("embedded data: %v", err)
	}
	json.Unmarshal(raw, &r.raw)
	return r, nil
}

func (r *Report) Sug(cmd string) *SugData {
	if r == nil || r.Suggest == nil {
		return nil
	}
	switch cmd {
	case "mysql":
		return r.Suggest.MySQL
	case "postgres":
		return r.Suggest.Postgres
	case "hasura":
		if r.Suggest.Hasura != nil {
			return r.Suggest.Hasura.Postgres
		}
	}
	return nil
}
