package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/harness/model"
	"verif/harness/pbt"
)

// Tree is the contents of a directory: for each path, "dir", "link TARGET" or "file " and the contents.
type Tree map[string]string

// snap reads a directory; a missing one is an empty tree.
func snap(dir string) Tree {
	tree := Tree{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			if os.IsNotExist(err) && p == dir {
				return nil
			}
			return err
		}
		rel, err := filepath.Rel(dir, p)
		if err != nil || rel == "." {
			return err
		}
		switch {
		case d.IsDir():
			tree[rel] = "dir"
		case d.Type()&fs.ModeSymlink != 0:
			to, err := os.Readlink(p)
			if err != nil {
				return err
			}
			tree[rel] = "link " + to
		default:
			bs, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			tree[rel] = "file " + string(bs)
		}
		return nil
	})
	if err != nil {
		pbt.Infra("can't read %s: %v", dir, err)
	}
	return tree
}

// paths gives the sorted paths of a tree.
func (t Tree) paths() []string {
	ps := make([]string, 0, len(t))
	for p := range t {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

// files gives the sorted paths of the files of a tree.
func (t Tree) files() []string {
	var ps []string
	for _, p := range t.paths() {
		if strings.HasPrefix(t[p], "file ") {
			ps = append(ps, p)
		}
	}
	return ps
}

// sub gives the part of a tree below dir.
func (t Tree) sub(dir string) Tree {
	res := Tree{}
	for p, c := range t {
		if rel, err := filepath.Rel(dir, p); err == nil && rel != "." && rel != ".." && !strings.HasPrefix(rel, "../") {
			res[rel] = c
		}
	}
	return res
}

// treeDiff describes the first difference between trees, as normalised.
func treeDiff(got, want Tree, norm func(path, content string) string) string {
	if norm == nil {
		norm = func(_, c string) string { return c }
	}
	for _, p := range want.paths() {
		c, ok := got[p]
		if !ok {
			return fmt.Sprintf("%q is missing", p)
		}
		if a, b := norm(p, c), norm(p, want[p]); a != b {
			return fmt.Sprintf("%q differs: %s", p, textDiff(a, b))
		}
	}
	for _, p := range got.paths() {
		if _, ok := want[p]; !ok {
			return fmt.Sprintf("%q is unexpected", p)
		}
	}
	return ""
}

// textDiff shows the first line at which texts differ.
func textDiff(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(as) || i < len(bs); i++ {
		x, y := "(end)", "(end)"
		if i < len(as) {
			x = as[i]
		}
		if i < len(bs) {
			y = bs[i]
		}
		if x != y {
			return fmt.Sprintf("line %d is %q, want %q", i+1, clip(x, 300), clip(y, 300))
		}
	}
	return "same"
}

var dateRE = regexp.MustCompile(`\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d[^\n]*`)

// undated removes dates of generation.
func undated(_, content string) string { return dateRE.ReplaceAllString(content, "DATE") }

// undatedSorted also disregards the order of lines.
func undatedSorted(p, content string) string {
	lines := strings.Split(undated(p, content), "\n")
	for i := range lines {
		lines[i] = strings.TrimRight(strings.TrimSpace(lines[i]), ",;")
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

// hasOverride checks whether one of a variant's overridden channels occurs in the suite.
func (v Variant) hasOverride(types map[string]string) bool {
	for _, o := range v.Overrides {
		if _, ok := types[o.Ch]; ok {
			return true
		}
	}
	return false
}

// outputs gives the files and directories that generation makes, relative to the output directory.
func (c Config) outputs(suite model.Suite, types map[string]string) (files, dirs []string) {
	dir := map[string]bool{}
	add := func(p string) {
		files = append(files, p)
		for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
			dir[d] = true
		}
	}
	for _, v := range c.Variants {
		root := strings.ToLower(v.Name)
		src := root + "/src/"
		add(src + "rtcg/rtcg.h")
		add(src + "rtcg/rtcg.cpp")
		add(src + "convert/convert.h")
		if v.hasOverride(types) {
			add(src + "convert/convert.cpp")
		}
		if v.Makefile {
			add(root + "/Makefile")
		}
		for _, t := range suite.Keys() {
			add(src + t + "/src/main.cpp")
			dir[src+t+"/include"] = true
			if v.Catkin != nil {
				add(src + t + "/package.xml")
				add(src + t + "/CMakeLists.txt")
			}
		}
	}
	for d := range dir {
		dirs = append(dirs, d)
	}
	sort.Strings(files)
	sort.Strings(dirs)
	return files, dirs
}

func isBlank(bs []byte) bool { return len(bytes.TrimSpace(bs)) == 0 }

// normFor disregards dates of generation and, for combined tests, the order of lines.
func normFor(suite model.Suite) func(path, content string) string {
	return func(p, content string) string {
		for k, n := range suite {
			if len(n.Members()) > 1 && strings.Contains("/"+p, "/"+k+"/") {
				return undatedSorted(p, content)
			}
		}
		return undated(p, content)
	}
}
