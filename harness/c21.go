package main

import (
	"context"
	"fmt"
	"html"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"trcsim/rt"
)

func init() {
	register(&Scenario{ID: "C21", Gen: genC21, Run: runC21, Quick: 40000, Notes: append([]string{
		"real: trcweb.TraceServer, its page template, html/template, trcweb.Middleware, net/http's Client and request parsing",
		"stand-in: the network, the HTTP server's connection handling, the browser (a tokenizer of HTML which reads texts, tables, links and forms)"}, realTrc...)})
}

var texts21 = []string{
	"plain text", "<evil>", "<evil onload=\"evil()\">x</evil>", "\"><evil a=\"", "' onevil='1", "</script><evil>", "</style></title><evil>", "<!-- <evil> -->", "--><evil>",
	"a&b=c&lt;d", "{{.Evil}} {{ evil }}", "javascript:evil()", "one,two;three", "a,b;<evil>;,", "50% +1 #2 ?x=y", "tab\there", "two\nlines", "日本語 🙂", "`${evil}`", "&amp;amp;", "\\", "",
}

// pageNames are categories and sources.
var pageNames = []string{"alpha", "a&b=c", "x+y z", "100%", "<evil>", "\"><evil b=\"", "' onevil='", "javascript:evil()", "p#q?r", "é,;", "alphabet", "overall"}

var pageQueries = []string{"", "", "k1", "a+b", "k[0-9]*[02468]#", "a&b=c", "(", "<evil>", "\"><evil>", "</script><evil>", "'+evil()+'", "100%", "one|two", "\\d+", "x y", "%zz", "#", "k1;k2"}

func genC21(g *G) *Prog {
	p := newProg()
	p.Cfg["mw"] = g.n(2)
	p.Cfg["sources"] = g.pick(1, 1, 2, 3)
	p.Cfg["src"] = g.n(1 << 12)
	p.Cfg["latency"] = g.pick(0, 1, 20)
	p.Cfg["window"] = g.pick(1<<16, 1<<16, 5000)
	p.Cfg["cap"] = g.pick(1000, 1000, 3, 1)
	p.Cfg["fail"] = g.pick(0, 0, 0, 1, 2, 3)
	cats := g.rng(1, 4)
	base := g.n(len(pageNames))
	mut := func(t int) {
		switch g.n(7) {
		case 0, 1:
			p.add(t, Op{K: "mk", A: g.n(3), B: g.n(3), C: (base + g.n(cats)) % len(pageNames), D: g.n(2)})
		case 2, 3, 4:
			p.add(t, Op{K: "say", A: g.n(3), B: g.n(len(texts21)), C: g.n(4), D: g.pick(0, 0, 0, 1)})
		case 5:
			p.add(t, Op{K: "end", A: g.n(3)})
		case 6:
			p.add(t, Op{K: "nap", A: g.pick(0, 1, 7, 60, 400), B: g.n(1000)})
		}
	}
	if g.chance(0.9) {
		p.add(0, Op{K: "mk", A: g.n(3), B: g.n(3), C: base, D: g.n(2)})
	}
	if g.chance(0.02) {
		p.add(0, Op{K: "flood", A: g.n(3), B: g.pick(25, 40, 60, 110)})
	}
	for i := g.rng(1, 14); i > 0; i-- {
		mut(0)
	}
	if g.chance(0.6) {
		for i := g.rng(2, 12); i > 0; i-- {
			mut(1)
		}
	}
	for t, n := 2, 2+g.rng(1, 2); t < n; t++ {
		for i := g.pick(1, 1, 2); i > 0; i-- {
			o := Op{K: "page", A: g.n(1 << 12), B: g.n(1 << 12), C: g.n(1 << 12), D: g.pick(-1, g.n(1000))}
			if g.chance(0.15) {
				o.S = strconv.Itoa(g.pick(0, 1, g.n(3000), g.n(40000)))
			}
			switch g.n(5) {
			case 0:
				o.A &= 1<<g.n(12) | 1<<g.n(12)
			case 1:
				o.A = 1 << g.n(12)
			case 2:
				o.A &= 1<<7 | 1<<8 | 1<<9 | 1<<10
			case 3:
				o.A = 1 << 9
			}
			p.add(t, o)
		}
	}
	return p
}

// pageSearcher is what the server searches: it keeps deep copies of what it
// answers.
type pageSearcher struct {
	real trc.Searcher
	recs map[*simConn][]*answer
}

func (s *pageSearcher) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	c, _ := ctx.Value(connKey{}).(*simConn)
	rq := *req
	rq.Bucketing = append([]time.Duration(nil), req.Bucketing...)
	a := &answer{req: &rq}
	if c != nil {
		s.recs[c] = append(s.recs[c], a)
	}
	res, err := s.real.Search(ctx, req)
	a.err = err
	if res != nil {
		cp := *res
		cp.Problems = append([]string(nil), res.Problems...)
		cp.Sources = append([]string(nil), res.Sources...)
		cp.Traces = nil
		for _, st := range res.Traces {
			c := *st
			c.TraceEvents = append([]trc.Event(nil), st.TraceEvents...)
			cp.Traces = append(cp.Traces, &c)
		}
		cp.Stats = trc.NewSearchStats(res.Stats.Bucketing)
		cp.Stats.Merge(res.Stats)
		a.copy = &cp
	}
	a.done = true
	return res, err
}

type brokenSearcher struct{ how int }

func (b brokenSearcher) Search(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) {
	rt.Count("fault.broken_source", 1)
	if b.how == 1 {
		return nil, nil
	}
	return nil, fmt.Errorf("source <evil>&amp; is broken in way %d", b.how)
}

type pageWorld struct {
	*tw
	n     *simNet
	h     *simHost
	rec   *pageSearcher
	cols  []*trc.Collector
	open  map[int]trc.Trace
	nkey  int
	pages int
}

func runC21(p *Prog) {
	w := &pageWorld{tw: newTW(p), n: newNet(), open: map[int]trc.Trace{}}
	var ms trc.MultiSearcher
	for i := 0; i < p.Cfg["sources"]; i++ {
		c := trc.NewCollector(trc.CollectorConfig{Source: pageNames[(p.Cfg["src"]+i*5)%len(pageNames)]})
		c.SetCategorySize(p.Cfg["cap"])
		w.cols = append(w.cols, c)
		ms = append(ms, c)
	}
	if f := p.Cfg["fail"]; f > 0 {
		ms = append(ms, brokenSearcher{f})
		if f == 3 {
			ms = append(ms, brokenSearcher{4}, brokenSearcher{1})
		}
	}
	w.rec = &pageSearcher{real: ms, recs: map[*simConn][]*answer{}}
	if len(ms) == 1 {
		w.rec.real = ms[0]
	}
	srv := &trcweb.TraceServer{Collector: w.cols[0], Searcher: w.rec}
	var handler http.Handler = srv
	if p.Cfg["mw"] == 1 {
		handler = trcweb.Middleware(w.tw.cols[kindColl].NewTrace, trcweb.Categorize)(srv)
	}
	w.h = w.n.host("server", handler)
	w.h.latency = int64(p.Cfg["latency"]) * 1e6
	w.h.window = p.Cfg["window"]
	run := func(task int, o Op) bool {
		switch o.K {
		case "mk":
			if o.D == 1 {
				trc.SetTraceStacks(o.A%2 == 0)
			}
			_, tr := w.cols[o.B%len(w.cols)].NewTrace(context.Background(), pageNames[o.C])
			w.open[o.A] = tr
		case "say":
			tr := w.open[o.A]
			if tr == nil {
				break
			}
			if o.D == 0 {
				w.nkey++
			}
			k, txt := fmt.Sprintf("k%d#", w.nkey), texts21[o.B]
			switch o.C {
			case 0:
				tr.Tracef("%s %s", k, txt)
			case 1:
				tr.LazyTracef("%s %s", k, txt)
			case 2:
				tr.Errorf("%s %s", k, txt)
			case 3:
				tr.LazyErrorf("%s%s", k, txt)
			}
		case "flood":
			if tr := w.open[o.A]; tr != nil {
				for i := 0; i < o.B; i++ {
					w.nkey++
					tr.LazyTracef("k%d# %s", w.nkey, texts21[i%len(texts21)])
				}
			}
		case "end":
			if tr := w.open[o.A]; tr != nil {
				tr.Finish()
			}
		case "nap":
			rt.Sleep(int64(o.A)*1e6 + int64(o.B))
		case "page":
			w.page(o)
		default:
			return false
		}
		return true
	}
	for _, o := range p.Tasks[0] {
		rt.BeginOp(o.ID)
		run(0, o)
	}
	rest := *p
	rest.Tasks = append([][]Op{nil}, p.Tasks[1:]...)
	w.p = &rest
	w.runTasks(run)
	settle(10e9)
	w.n.checkPanics()
}

// page opens a page as described by the operation, and follows a link on it.
func (w *pageWorld) page(o Op) {
	q := url.Values{}
	want := trc.SearchRequest{Limit: trc.SearchLimitDefault}
	bit := func(k int) bool { return o.A>>k&1 == 1 }
	if bit(0) {
		for i := 0; i <= o.B%2; i++ {
			s := pageNames[(w.p.Cfg["src"]+(i+o.B/2%2)*5)%len(pageNames)]
			want.Filter.Sources = append(want.Filter.Sources, s)
			q.Add("source", s)
		}
	}
	if bit(1) {
		want.Filter.Category = pageNames[o.B/4%len(pageNames)]
		q.Set("category", want.Filter.Category)
	}
	if bit(2) && bit(5) {
		want.Filter.IsActive = true
		q.Set("active", "")
	}
	if bit(3) && bit(5) {
		want.Filter.IsFinished = true
		q.Set("finished", "true")
	}
	if bit(4) && bit(5) {
		want.Filter.IsErrored = true
		q.Set("errored", "")
	}
	if bit(6) {
		d := []time.Duration{0, time.Millisecond, 1500 * time.Microsecond, 50 * time.Millisecond}[o.B%4]
		want.Filter.MinDuration = &d
		q.Set("min", d.String())
	}
	if bit(7) {
		want.Filter.Query = pageQueries[o.C%len(pageQueries)]
		if want.Filter.Query != "" {
			q.Set("q", want.Filter.Query)
		}
	}
	if bit(8) {
		want.Limit = []int{1, 2, 25, 33}[o.C/20%4]
		q.Set("n", strconv.Itoa(want.Limit))
	}
	if bit(9) {
		want.StackDepth = []int{-1, 1, 3}[o.C/80%3]
		q.Set("stack", strconv.Itoa(want.StackDepth))
	}
	if bit(10) {
		want.Bucketing = []time.Duration{time.Millisecond, 20 * time.Millisecond}
		for _, b := range want.Bucketing {
			q.Add("b", b.String())
		}
	}
	if bit(11) && len(w.open) > 0 {
		if tr := w.open[o.C%3]; tr != nil {
			want.Filter.IDs = []string{tr.ID()}
			q.Set("id", tr.ID())
		}
	}
	links := w.get(q.Encode(), want, o.S)
	if len(links) == 0 || o.D < 0 {
		return
	}
	l := links[o.D%len(links)]
	rt.Note("follow %q", l.href)
	rt.Count("probe.links_followed", 1)
	w.get(strings.TrimPrefix(l.href, "?"), l.want, "")
}

var accepts21 = []string{"text/html,application/xhtml+xml,application/xml;q=0.9,*/*;q=0.8", "text/html", "application/json;q=0.1, text/html; charset=utf-8"}

type link struct {
	href string
	want trc.SearchRequest
}

// get opens a page, checks it, and returns the links on it.
func (w *pageWorld) get(query string, want trc.SearchRequest, fault string) []link {
	ctx := context.Background()
	if fault != "" {
		at, _ := strconv.Atoi(fault)
		ctx = context.WithValue(ctx, clientKey{}, &clientCall{fault: netFault{kind: []int{nfReset, nfCut}[at%2], at: at}})
	}
	asJSON := false
	if v, err := url.ParseQuery(query); err == nil {
		asJSON = v.Has("json")
	}
	r := rawRequest(ctx, "GET", "server", query, "", map[string]string{"accept": accepts21[len(w.n.conns)%len(accepts21)]})
	res, err := (&http.Client{Transport: w.n}).Do(r)
	if err != nil {
		return nil
	}
	c := w.n.connOf(r)
	body, rerr := io.ReadAll(res.Body)
	res.Body.Close()
	if rerr != nil || c.broken != nil || c.struck {
		return nil
	}
	as := w.rec.recs[c]
	if len(as) != 1 {
		rt.Fail("searches", "the server ran %d searches for a page", len(as))
	}
	a := as[0]
	if d := sameRequest(&want, a.req); d != "" {
		rt.Fail("request", "the page for %q shows another search: %s", query, d)
	}
	if res.StatusCode != 200 {
		rt.Fail("status", "status %d for page %q: %s", res.StatusCode, query, clip(string(body), 300))
	}
	if asJSON {
		if !strings.HasPrefix(res.Header.Get("content-type"), "application/json") {
			rt.Fail("content-type", "a link for JSON gives %q", res.Header.Get("content-type"))
		}
		return nil
	}
	if !strings.HasPrefix(res.Header.Get("content-type"), "text/html") {
		rt.Fail("content-type", "a browser got %q", res.Header.Get("content-type"))
	}
	w.pages++
	rt.Count("probe.pages", 1)
	d := readPage(string(body))
	return w.checkPage(d, a)
}

// doc is what a browser makes of a page.
type doc struct {
	text  string // visible text, whitespace collapsed
	runs  []textRun
	elems []*elem
}

type textRun struct {
	at    int // in text
	inErr bool
}

type elem struct {
	tag    string
	attrs  map[string]string
	names  []string
	parent *elem
	from   int // extent in text
	to     int
}

func (e *elem) class(c string) bool {
	for _, x := range strings.Fields(e.attrs["class"]) {
		if x == c {
			return true
		}
	}
	return false
}

func (e *elem) within(tag, id string) bool {
	for x := e; x != nil; x = x.parent {
		if x.tag == tag && (id == "" || x.attrs["id"] == id) {
			return true
		}
	}
	return false
}

var voidTags = map[string]bool{"br": true, "wbr": true, "input": true, "meta": true, "link": true, "hr": true, "img": true}

func isSpace(b byte) bool { return b == ' ' || b == '\n' || b == '\t' || b == '\r' || b == '\f' }

// readPage is a tokenizer for HTML, strict about nesting and quoting.
func readPage(s string) *doc {
	d := &doc{}
	var b strings.Builder
	var cur *elem
	put := func(t string) {
		for i := 0; i < len(t); i++ {
			if isSpace(t[i]) {
				if n := b.Len(); n > 0 && b.String()[n-1] != ' ' {
					b.WriteByte(' ')
				}
			} else {
				b.WriteByte(t[i])
			}
		}
	}
	bad := func(i int, f string, args ...any) {
		lo := i - 80
		if lo < 0 {
			lo = 0
		}
		rt.Fail("malformed", "the page is malformed: %s, at %q", fmt.Sprintf(f, args...), clip(s[lo:], 200))
	}
	i := 0
	for i < len(s) {
		lt := strings.IndexByte(s[i:], '<')
		if lt < 0 {
			put(html.UnescapeString(s[i:]))
			break
		}
		if lt > 0 {
			put(html.UnescapeString(s[i : i+lt]))
			i += lt
		}
		switch {
		case strings.HasPrefix(s[i:], "<!--"):
			n := strings.Index(s[i:], "-->")
			if n < 0 {
				bad(i, "a comment has no end")
			}
			i += n + 3
		case strings.HasPrefix(s[i:], "<!"):
			n := strings.IndexByte(s[i:], '>')
			if n < 0 {
				bad(i, "a declaration has no end")
			}
			i += n + 1
		case strings.HasPrefix(s[i:], "</"):
			n := strings.IndexByte(s[i:], '>')
			if n < 0 {
				bad(i, "a tag has no end")
			}
			tag := strings.ToLower(strings.TrimSpace(s[i+2 : i+n]))
			if cur == nil || cur.tag != tag {
				bad(i, "unexpected end of %q", tag)
			}
			cur.to = b.Len()
			cur = cur.parent
			put(" ")
			i += n + 1
		default:
			start := i
			i++
			n := i
			for n < len(s) && !isSpace(s[n]) && s[n] != '>' && s[n] != '/' {
				n++
			}
			e := &elem{tag: strings.ToLower(s[i:n]), attrs: map[string]string{}, parent: cur}
			i = n
			self := false
			for {
				for i < len(s) && (isSpace(s[i]) || s[i] == '/') {
					self = s[i] == '/'
					i++
				}
				if i >= len(s) {
					bad(start, "a tag has no end")
				}
				if s[i] == '>' {
					i++
					break
				}
				n = i
				for n < len(s) && !isSpace(s[n]) && s[n] != '>' && s[n] != '=' && s[n] != '/' {
					n++
				}
				if n == i {
					bad(start, "odd attribute")
				}
				name, val := strings.ToLower(s[i:n]), ""
				i = n
				if i < len(s) && s[i] == '=' {
					i++
					if i < len(s) && (s[i] == '"' || s[i] == '\'') {
						m := strings.IndexByte(s[i+1:], s[i])
						if m < 0 {
							bad(start, "an attribute has no end")
						}
						val = html.UnescapeString(s[i+1 : i+1+m])
						i += m + 2
					} else {
						n = i
						for n < len(s) && !isSpace(s[n]) && s[n] != '>' {
							n++
						}
						val = html.UnescapeString(s[i:n])
						i = n
					}
				}
				e.names = append(e.names, name)
				e.attrs[name] = val
				self = false
			}
			if e.tag != "wbr" {
				put(" ")
			}
			e.from = b.Len()
			d.elems = append(d.elems, e)
			switch {
			case self || voidTags[e.tag]:
				e.to = e.from
			case e.tag == "script" || e.tag == "style" || e.tag == "title":
				n := strings.Index(strings.ToLower(s[i:]), "</"+e.tag)
				if n < 0 {
					bad(start, "%s has no end", e.tag)
				}
				i += n
				cur = e
			default:
				cur = e
			}
		}
	}
	if cur != nil {
		bad(len(s), "%q has no end", cur.tag)
	}
	d.text = b.String()
	return d
}

func collapse(s string) string { return strings.TrimSpace(strings.Join(strings.Fields(s), " ")) }

func (d *doc) inner(e *elem) string { return strings.TrimSpace(d.text[e.from:e.to]) }

func (w *pageWorld) checkPage(d *doc, a *answer) []link {
	res, req := a.copy, *a.req
	req.Normalize()
	// nothing is taken for markup
	for _, e := range d.elems {
		if strings.Contains(e.tag, "evil") {
			rt.Fail("markup", "the page has an element %q", e.tag)
		}
		for _, n := range e.names {
			if strings.Contains(n, "evil") || strings.ContainsAny(n, "\"'<") {
				rt.Fail("markup", "the page has an element %q with attribute %q", e.tag, n)
			}
		}
		if h := strings.ToLower(strings.TrimSpace(e.attrs["href"])); strings.HasPrefix(h, "javascript:") {
			rt.Fail("markup", "the page has a link to %q", h)
		}
	}
	// counts and problems
	count := func(name string, want int) {
		i := strings.Index(d.text, name+"=")
		if i < 0 {
			rt.Fail("counts", "the page does not show %q", name)
		}
		t := d.text[i+len(name)+1:]
		n := 0
		for n < len(t) && t[n] >= '0' && t[n] <= '9' {
			n++
		}
		if t[:n] != strconv.Itoa(want) {
			rt.Fail("counts", "the page shows %s=%s instead of %d", name, t[:n], want)
		}
	}
	count("total", res.TotalCount)
	count("matched", res.MatchCount)
	count("shown", len(res.Traces))
	problems := append([]string(nil), res.Problems...)
	orig := *a.req
	for _, e := range orig.Normalize() {
		problems = append(problems, e.Error())
	}
	for _, p := range problems {
		if !strings.Contains(d.text, collapse(p)) {
			rt.Fail("problems", "the page does not show the problem %q", p)
		}
		rt.Count("probe.problems_shown", 1)
	}
	// the traces
	pos := strings.Index(d.text, "shown=")
	var segs []string
	var offs []int
	for i, st := range res.Traces {
		n := strings.Index(d.text[pos:], st.ID())
		if n < 0 {
			rt.Fail("missing", "trace %d of %d, %s, is not on the page, or not in its place", i, len(res.Traces), st.ID())
		}
		if i > 0 {
			segs = append(segs, d.text[pos:pos+n])
		}
		pos += n
		offs = append(offs, pos)
		pos += len(st.ID())
		// until the next one
		if i > 0 {
			segs[i-1] = d.text[offs[i-1]:offs[i]]
		}
	}
	if len(res.Traces) > 0 {
		segs = append(segs, d.text[offs[len(offs)-1]:])
	}
	for i, st := range res.Traces {
		w.checkTrace(d, st, segs[i], offs[i])
	}
	shown := 0
	for _, st := range res.Traces {
		shown += len(st.TraceEvents)
	}
	rt.Count("probe.events_shown", int64(shown))
	if shown > 0 {
		rt.Count("probe.pages_with_events", 1)
	}
	links := w.checkTable(d, res, req)
	w.checkForm(d, req)
	for _, st := range res.Traces {
		for _, e := range d.elems {
			if e.tag != "a" || e.from < offs[0] || d.inner(e) != st.ID() || e.attrs["href"] == "" {
				continue
			}
			links = append(links, w.link(e, trc.SearchRequest{Limit: trc.SearchLimitDefault, Filter: trc.Filter{IDs: []string{st.ID()}}}))
		}
	}
	for _, e := range d.elems {
		if e.tag != "a" || len(offs) == 0 || e.from < offs[0] {
			continue
		}
		for _, st := range res.Traces {
			if n := d.inner(e); n == st.Source() && strings.Contains(e.attrs["href"], "source=") {
				links = append(links, w.link(e, trc.SearchRequest{Limit: trc.SearchLimitDefault, Filter: trc.Filter{Sources: []string{n}}}))
				break
			} else if n == st.Category() && strings.Contains(e.attrs["href"], "category=") {
				links = append(links, w.link(e, trc.SearchRequest{Limit: trc.SearchLimitDefault, Filter: trc.Filter{Category: n}}))
				break
			}
		}
	}
	return links
}

func (w *pageWorld) checkTrace(d *doc, st *trc.StaticTrace, seg string, off int) {
	at := 0
	next := func(what, s string) int {
		s = collapse(s)
		n := strings.Index(seg[at:], s)
		if n < 0 {
			rt.Fail("trace", "trace %s (%q, %q) is shown without %s %q, or not in its place: %q", st.ID(), st.Source(), st.Category(), what, s, clip(seg, 600))
		}
		n += at
		at = n + len(s)
		return n
	}
	if st.Source() != "" {
		next("source", st.Source())
	}
	next("category", st.Category())
	keys, want := countKeys(seg), 0
	for _, ev := range st.TraceEvents {
		want += countKeys(ev.What)
	}
	if keys != want {
		rt.Fail("trace", "trace %s is shown with %d events instead of %d: %q", st.ID(), keys, want, clip(seg, 600))
	}
	var titles []string
	for _, e := range d.elems {
		if t := e.attrs["title"]; t != "" && e.from >= off && e.from <= off+len(seg) {
			titles = append(titles, t)
		}
	}
	titled := func(x time.Duration) bool {
		for _, t := range titles {
			if strings.Contains(t, x.String()) {
				return true
			}
		}
		return false
	}
	if !titled(st.Duration()) {
		rt.Fail("trace", "trace %s is shown without its duration %v", st.ID(), st.Duration())
	}
	prev := st.Started()
	for _, ev := range st.TraceEvents {
		next("time", ev.When.UTC().Format("15:04:05.000000"))
		n := next("event", ev.What)
		if got := d.errorAt(off + n); got != ev.IsError {
			rt.Fail("trace", "event %q is shown as an error: %v, instead of %v", ev.What, got, ev.IsError)
		}
		if !titled(ev.When.Sub(prev)) {
			rt.Fail("trace", "trace %s is shown without the time %v from event to event", st.ID(), ev.When.Sub(prev))
		}
		prev = ev.When
		for _, fr := range ev.Stack {
			fn := fr.Function
			if i := strings.LastIndex(fn, "/"); i > 0 {
				fn = fn[i+1:]
			}
			next("function", fn)
			next("line", fr.CompactFileLine())
			rt.Count("probe.frames_shown", 1)
		}
	}
	rest := seg[at:]
	if strings.Contains(rest, "finished") != st.Finished() || strings.Contains(rest, "active") == st.Finished() {
		rt.Fail("trace", "trace %s, finished %v, is shown with %q", st.ID(), st.Finished(), clip(rest, 200))
	}
}

func countKeys(s string) (keys int) {
	for k := 0; k+1 < len(s); k++ {
		if s[k] == 'k' && s[k+1] >= '0' && s[k+1] <= '9' {
			n := k + 1
			for n < len(s) && s[n] >= '0' && s[n] <= '9' {
				n++
			}
			if n < len(s) && s[n] == '#' {
				keys++
			}
		}
	}
	return keys
}

// errorAt tells whether the text at an offset is marked as an error.
func (d *doc) errorAt(off int) bool {
	for _, e := range d.elems {
		if e.from <= off && off < e.to && e.class("error") {
			return true
		}
	}
	return false
}

func (w *pageWorld) link(e *elem, want trc.SearchRequest) link {
	href := e.attrs["href"]
	v, err := url.ParseQuery(strings.TrimPrefix(href, "?"))
	if err != nil || !strings.HasPrefix(href, "?") {
		rt.Fail("link", "a link leads to %q: %v", href, err)
	}
	f := trc.Filter{Sources: v["source"], IDs: v["id"], Category: v.Get("category"), IsActive: v.Has("active"), IsFinished: v.Has("finished"), IsErrored: v.Has("errored"), IsSuccess: v.Has("success"), Query: v.Get("q")}
	if s := v.Get("min"); s != "" {
		m, err := time.ParseDuration(s)
		if err != nil {
			rt.Fail("link", "a link leads to %q: %v", href, err)
		}
		f.MinDuration = &m
	}
	got := trc.SearchRequest{Filter: f, Limit: trc.SearchLimitDefault}
	if s := v.Get("n"); s != "" {
		got.Limit, _ = strconv.Atoi(s)
	}
	for _, s := range v["b"] {
		b, err := time.ParseDuration(s)
		if err != nil {
			rt.Fail("link", "a link leads to %q: %v", href, err)
		}
		got.Bucketing = append(got.Bucketing, b)
	}
	if df := sameRequest(&want, &got); df != "" {
		rt.Fail("link", "link %q does not lead to what it stands for: %s", href, df)
	}
	return link{href, want}
}

// checkTable checks the statistics.
func (w *pageWorld) checkTable(d *doc, res *trc.SearchResponse, req trc.SearchRequest) []link {
	base := trc.SearchRequest{Limit: req.Limit, Filter: trc.Filter{Query: req.Filter.Query, Sources: req.Filter.Sources}}
	if !reflect.DeepEqual(req.Bucketing, trc.DefaultBucketing) {
		base.Bucketing = req.Bucketing
	}
	active := func(r trc.SearchRequest) trc.SearchRequest { r.Filter.IsActive = true; return r }
	errored := func(r trc.SearchRequest) trc.SearchRequest { r.Filter.IsErrored = true; return r }
	min := func(r trc.SearchRequest, b time.Duration) trc.SearchRequest {
		r.Filter.MinDuration = &b
		return r
	}
	var rows [][]*elem
	var tr *elem
	for _, e := range d.elems {
		if !e.within("table", "summary") {
			continue
		}
		switch e.tag {
		case "tr":
			tr = e
			rows = append(rows, nil)
		case "td", "th":
			if tr == nil {
				rt.Fail("table", "a cell outside of a row")
			}
			rows[len(rows)-1] = append(rows[len(rows)-1], e)
		}
	}
	aOf := func(cell *elem) *elem {
		for _, e := range d.elems {
			if e.tag == "a" && e.parent == cell {
				return e
			}
		}
		rt.Fail("table", "cell %q has no link", d.inner(cell))
		return nil
	}
	cats := res.Stats.AllCategories()
	if len(rows) != len(cats)+1 {
		rt.Fail("table", "the table has %d rows for %d categories", len(rows), len(cats)-1)
	}
	var links []link
	nb := len(res.Stats.Bucketing)
	for i, cells := range rows {
		if len(cells) < nb+4 {
			rt.Fail("table", "row %d has %d cells for %d buckets", i, len(cells), nb)
		}
		if i == 0 {
			links = append(links, w.link(aOf(cells[1]), active(base)))
			for j, b := range res.Stats.Bucketing {
				if !strings.Contains(d.inner(cells[2+j]), b.String()) {
					rt.Fail("table", "the column of bucket %v is titled %q", b, d.inner(cells[2+j]))
				}
				links = append(links, w.link(aOf(cells[2+j]), min(base, b)))
			}
			links = append(links, w.link(aOf(cells[2+nb]), errored(base)))
			continue
		}
		cs := cats[i-1]
		name := cs.Category
		last := i == len(rows)-1
		if got := d.inner(cells[0]); got != collapse(name) {
			rt.Fail("table", "row %d is of category %q instead of %q", i, got, name)
		}
		want := []int{cs.ActiveCount}
		want = append(want, cs.BucketCounts...)
		want = append(want, cs.ErroredCount, cs.TotalCount())
		for j, n := range want {
			if got := d.inner(cells[1+j]); got != strconv.Itoa(n) {
				rt.Fail("table", "category %q has %q in column %d instead of %d", name, got, 1+j, n)
			}
		}
		if name == "overall" && !last { // ambiguous by design
			continue
		}
		row := base
		if !last {
			row.Filter.Category = name
		}
		links = append(links, w.link(aOf(cells[0]), row), w.link(aOf(cells[1]), active(row)), w.link(aOf(cells[2+nb]), errored(row)))
		for j, b := range res.Stats.Bucketing {
			links = append(links, w.link(aOf(cells[2+j]), min(row, b)))
		}
	}
	return links
}

// checkForm checks that the search form has the conditions of the search.
func (w *pageWorld) checkForm(d *doc, req trc.SearchRequest) {
	v := url.Values{}
	for _, e := range d.elems {
		if e.tag == "input" && e.within("form", "") && e.attrs["name"] != "" && e.attrs["value"] != "" {
			v.Add(e.attrs["name"], e.attrs["value"])
		}
	}
	f := req.Filter
	cat := f.Category
	if cat == "overall" {
		cat = v.Get("category")
	}
	min := ""
	if f.MinDuration != nil {
		min = f.MinDuration.String()
	}
	if v.Get("q") != f.Query || v.Get("category") != cat || v.Has("active") != f.IsActive || v.Has("finished") != f.IsFinished || v.Has("errored") != f.IsErrored || v.Has("success") != f.IsSuccess || v.Get("min") != min {
		rt.Fail("form", "the form has %v for filter %+v", v, f)
	}
}
