package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// The addresses of the project's templates, as documented by GitHub.
func commitsURL(name string) string {
	return "https://api.github.com/repos/hexdigest/gowrap/commits?path=templates/" + name + "&per_page=1"
}

func rawURL(sha, name string) string {
	return "https://raw.githubusercontent.com/hexdigest/gowrap/" + sha + "/templates/" + name
}

const treeURL = "https://api.github.com/repos/hexdigest/gowrap/git/trees/master?recursive=1"

// Fault spoils one request.
type Fault struct {
	Kind string // "", do, status, cut, bodyErr, body
	N    int    // status code, or where the body is cut
	Body []byte // substitute for the body
}

// TreeEntry is an entry of the repository listing.
type TreeEntry struct {
	Path string
	Type string
}

// web is the outside world: GitHub and other servers.
type web struct {
	commits map[string][]string          // template -> SHAs, latest first
	blobs   map[string]map[string][]byte // template -> SHA -> bytes
	pages   map[string][]byte            // other URLs
	tree    []TreeEntry
	nsha    int
	chunk   int
	faults  []Fault
	asked   []string
}

func newWeb() *web {
	return &web{commits: map[string][]string{}, blobs: map[string]map[string][]byte{}, pages: map[string][]byte{}}
}

func (w *web) publish(name string, b []byte) {
	w.nsha++
	sha := fmt.Sprintf("%040x", 0xabc000+w.nsha)
	w.commits[name] = append([]string{sha}, w.commits[name]...)
	if w.blobs[name] == nil {
		w.blobs[name] = map[string][]byte{}
	}
	w.blobs[name][sha] = b
}

// page returns what is at an URL when nothing fails.
func (w *web) page(u string) ([]byte, bool) {
	if b, ok := w.pages[u]; ok {
		return b, true
	}
	if u == treeURL {
		type leaf struct {
			Path string `json:"path"`
			Mode string `json:"mode"`
			Type string `json:"type"`
			SHA  string `json:"sha"`
		}
		tree := []leaf{}
		for i, t := range w.tree {
			tree = append(tree, leaf{t.Path, "100644", t.Type, fmt.Sprint(i)})
		}
		b, err := json.Marshal(map[string]any{"sha": "1", "url": treeURL, "tree": tree, "truncated": false})
		must(err)
		return b, true
	}
	const api = "https://api.github.com/repos/hexdigest/gowrap/commits?path=templates/"
	if s, ok := strings.CutPrefix(u, api); ok {
		name, ok := strings.CutSuffix(s, "&per_page=1")
		if !ok {
			return nil, false
		}
		list := []any{}
		if c := w.commits[name]; len(c) > 0 {
			// per_page=1
			list = append(list, map[string]any{"sha": c[0], "commit": map[string]any{"message": "x", "tree": map[string]any{"sha": "0"}}, "parents": []any{map[string]any{"sha": "1"}}})
		}
		b, err := json.Marshal(list)
		must(err)
		return b, true
	}
	const raw = "https://raw.githubusercontent.com/hexdigest/gowrap/"
	if s, ok := strings.CutPrefix(u, raw); ok {
		sha, name, ok := strings.Cut(s, "/templates/")
		if !ok {
			return nil, false
		}
		b, ok := w.blobs[name][sha]
		return b, ok
	}
	return nil, false
}

var errFault = errors.New("injected fault")

type body struct {
	b     []byte
	end   error
	chunk int
	lone  bool // the last bytes come with the end
}

func (b *body) Read(p []byte) (int, error) {
	if len(b.b) == 0 {
		return 0, b.end
	}
	n := len(b.b)
	if b.chunk > 0 && n > b.chunk {
		n = b.chunk
	}
	n = copy(p, b.b[:n])
	b.b = b.b[n:]
	if len(b.b) == 0 && b.lone {
		return n, b.end
	}
	return n, nil
}

func (b *body) Close() error { return nil }

// Do implements the HTTP client of the loader.
func (w *web) Do(r *http.Request) (*http.Response, error) {
	u := r.URL.String()
	var f Fault
	if n := len(w.asked); n < len(w.faults) {
		f = w.faults[n]
	}
	w.asked = append(w.asked, r.Method+" "+u)
	if f.Kind == "do" {
		return nil, errFault
	}
	b, ok := w.page(u)
	status := 200
	if !ok {
		status, b = 404, []byte("404: Not Found")
	}
	resp := &http.Response{Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: r, ContentLength: -1}
	bd := &body{end: io.EOF, chunk: w.chunk, lone: w.chunk%2 == 1}
	switch f.Kind {
	case "status":
		status = f.N
	case "cut":
		if f.N < len(b) {
			b = b[:f.N]
		}
		bd.end = io.ErrUnexpectedEOF
	case "bodyErr":
		b, bd.end = nil, errFault
	case "body":
		b = f.Body
	}
	bd.b = append([]byte(nil), b...)
	resp.Body, resp.StatusCode, resp.Status = bd, status, fmt.Sprintf("%d %s", status, http.StatusText(status))
	return resp, nil
}

// fetch is the model of a request: its bytes, or failure.
func (w *web) fetch(u string, f Fault) ([]byte, bool) {
	b, ok := w.page(u)
	switch f.Kind {
	case "do", "cut", "bodyErr":
		return nil, false
	case "status":
		if f.N != 200 {
			return nil, false
		}
		// a page that is not there, with status 200
		if !ok {
			return []byte("404: Not Found"), true
		}
	case "body":
		if ok {
			return f.Body, true
		}
	}
	return b, ok
}

func faultAt(fs []Fault, i int) Fault {
	if i < len(fs) {
		return fs[i]
	}
	return Fault{}
}

// remote is the model of loading a reference: an URL, a file:// path or a name.
// dir is the working directory, root the root of its git repository or "".
func (w *web) load(ref string, dir, root string, faults []Fault) (b []byte, loc string, ok bool, asked []string) {
	if strings.HasPrefix(ref, "http://") || strings.HasPrefix(ref, "https://") {
		b, ok := w.fetch(ref, faultAt(faults, 0))
		return b, ref, ok, []string{"GET " + ref}
	}
	if p, ok := strings.CutPrefix(ref, "file://"); ok {
		abs := p
		if !filepath.IsAbs(p) {
			abs = filepath.Join(dir, p)
		}
		if _, err := os.Stat(abs); err != nil {
			if root == "" {
				return nil, "", false, nil
			}
			abs = filepath.Join(root, p)
		}
		b, err := os.ReadFile(abs)
		return b, abs, err == nil, nil
	}
	asked = []string{"GET " + commitsURL(ref)}
	list, ok := w.fetch(commitsURL(ref), faultAt(faults, 0))
	if !ok {
		return nil, "", false, asked
	}
	var commits []struct {
		SHA *string `json:"sha"`
	}
	if json.Unmarshal(list, &commits) != nil || len(commits) == 0 || commits[0].SHA == nil || *commits[0].SHA == "" {
		return nil, "", false, nil
	}
	loc = rawURL(*commits[0].SHA, ref)
	b, ok = w.fetch(loc, faultAt(faults, 1))
	return b, loc, ok, append(asked, "GET "+loc)
}

var badLists = []string{"", "null", "[]", "{}", "[", `{"message":"API rate limit exceeded"}`, `[{"sha":1}]`, `[{}]`, `[null]`, "<html>", `"x"`, `[{"sha":""}]`, `[{"sha":"` + strings.Repeat("0", 40) + `"}]`, `[{"sha":"` + strings.Repeat("0", 40) + `"}`, "[] []", "\x00"}

var badTrees = []string{"", "null", "[]", "{}", "{", `{"message":"API rate limit exceeded"}`, `{"tree":null}`, `{"tree":{}}`, `{"tree":[]}`, `{"tree":[1]}`, `{"tree":[{}]}`, `{"tree":[{"path":1}]}`, `{"tree":["templates/x"]}`, "<html>", `{"tree":[{"path":"templates/x"}]`, `{"tree":[{"path":"templates/x"}]}}`}

func drawWebFault(t *rapid.T, subst []string) Fault {
	switch rapid.IntRange(0, 5).Draw(t, "fault") {
	case 1:
		return Fault{Kind: "do"}
	case 2:
		return Fault{Kind: "status", N: rapid.OneOf(rapid.SampledFrom([]int{201, 202, 203, 204, 206, 301, 302, 304, 400, 401, 403, 404, 418, 429, 500, 502, 503, 599, 199, 0}), rapid.IntRange(100, 999)).Draw(t, "status")}
	case 3:
		return Fault{Kind: "cut", N: rapid.IntRange(0, 80).Draw(t, "cut")}
	case 4:
		return Fault{Kind: "bodyErr"}
	case 5:
		if subst != nil {
			return Fault{Kind: "body", Body: []byte(rapid.SampledFrom(subst).Draw(t, "subst"))}
		}
	}
	return Fault{}
}

// drawBytes draws contents of a template.
func drawBytes(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 5).Draw(t, label+"Kind") {
	case 0:
		return []byte(fmt.Sprintf("type T%d struct{}\n", rapid.IntRange(0, 99).Draw(t, label)))
	case 1:
		return rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, label)
	case 2:
		return []byte{}
	case 3:
		return bytes.Repeat([]byte{byte(rapid.IntRange(0, 255).Draw(t, label))}, rapid.SampledFrom([]int{511, 512, 513, 4096, 32768, 70000}).Draw(t, label+"Len"))
	case 4:
		return []byte("\xef\xbb\xbf{{ $x := 1 }}\r\nimport (\r\n)\r\n\x00")
	default:
		return []byte(rapid.String().Draw(t, label))
	}
}
