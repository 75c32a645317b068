package main

import (
	"archive/zip"
	"bytes"
	"encoding/csv"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Table is one GTFS file as plain text cells.
type Table struct {
	Header []string   `json:"header"`
	Rows   [][]string `json:"rows"`
}

// Feed is a GTFS feed as plain tables, keyed by file name.  The driver never
// uses gtfsparser or gtfswriter: its reader and writer are independent.
type Feed map[string]*Table

var tableOrder = []string{"agency.txt", "feed_info.txt", "levels.txt", "stops.txt", "routes.txt", "calendar.txt",
	"calendar_dates.txt", "shapes.txt", "trips.txt", "stop_times.txt", "frequencies.txt", "fare_attributes.txt",
	"fare_rules.txt", "transfers.txt", "pathways.txt", "attributions.txt", "translations.txt"}

func (t *Table) col(name string) int {
	for i, h := range t.Header {
		if h == name {
			return i
		}
	}
	return -1
}

func (t *Table) clone() *Table {
	n := &Table{Header: append([]string(nil), t.Header...)}
	for _, r := range t.Rows {
		n.Rows = append(n.Rows, append([]string(nil), r...))
	}
	return n
}

func (f Feed) clone() Feed {
	n := Feed{}
	for k, t := range f {
		n[k] = t.clone()
	}
	return n
}

func (f Feed) add(file string, cells map[string]string) {
	t := f[file]
	row := make([]string, len(t.Header))
	for k, v := range cells {
		i := t.col(k)
		if i < 0 {
			panic("no column " + k + " in " + file)
		}
		row[i] = v
	}
	t.Rows = append(t.Rows, row)
}

// Row gives cells by column name.
type Row map[string]string

func (f Feed) rows(file string) []Row {
	t := f[file]
	if t == nil {
		return nil
	}
	out := make([]Row, 0, len(t.Rows))
	for _, r := range t.Rows {
		m := Row{}
		for i, h := range t.Header {
			if i < len(r) {
				m[h] = r[i]
			}
		}
		out = append(out, m)
	}
	return out
}

func csvBytes(t *Table) []byte {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.Write(t.Header)
	for _, r := range t.Rows {
		w.Write(r)
	}
	w.Flush()
	return b.Bytes()
}

func (f Feed) files() []string {
	var names []string
	for k := range f {
		names = append(names, k)
	}
	sort.Strings(names)
	return names
}

func (f Feed) writeDir(dir string) error {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for _, k := range f.files() {
		if err := os.WriteFile(filepath.Join(dir, k), csvBytes(f[k]), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func (f Feed) writeZip(path string, sub string) error {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	for _, k := range f.files() {
		w, err := z.Create(sub + k)
		if err != nil {
			return err
		}
		w.Write(csvBytes(f[k]))
	}
	if err := z.Close(); err != nil {
		return err
	}
	return os.WriteFile(path, b.Bytes(), 0o644)
}

func parseCSV(name string, b []byte) (*Table, error) {
	r := csv.NewReader(bytes.NewReader(b))
	r.FieldsPerRecord = -1
	all, err := r.ReadAll()
	if err != nil {
		return nil, fmt.Errorf("%s: %v", name, err)
	}
	if len(all) == 0 {
		return nil, fmt.Errorf("%s: empty file without header", name)
	}
	if len(b) > 0 && b[len(b)-1] != '\n' {
		return nil, fmt.Errorf("%s: last line is not terminated", name)
	}
	t := &Table{Header: all[0]}
	for i, row := range all[1:] {
		if len(row) != len(t.Header) {
			return nil, fmt.Errorf("%s: line %d has %d fields, header has %d", name, i+2, len(row), len(t.Header))
		}
		t.Rows = append(t.Rows, row)
	}
	return t, nil
}

// readFeed reads an output feed from a directory or zip file, strictly.
func readFeed(path string) (Feed, error) {
	f := Feed{}
	if strings.HasSuffix(path, ".zip") {
		zr, err := zip.OpenReader(path)
		if err != nil {
			return nil, err
		}
		defer zr.Close()
		for _, e := range zr.File {
			rc, err := e.Open()
			if err != nil {
				return nil, fmt.Errorf("%s: %v", e.Name, err)
			}
			b, err := io.ReadAll(rc)
			rc.Close()
			if err != nil {
				return nil, fmt.Errorf("%s: %v", e.Name, err)
			}
			if f[e.Name] != nil {
				return nil, fmt.Errorf("%s occurs twice in the archive", e.Name)
			}
			t, err := parseCSV(e.Name, b)
			if err != nil {
				return nil, err
			}
			f[e.Name] = t
		}
		return f, nil
	}
	es, err := os.ReadDir(path)
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		if e.Name() == foreignFile {
			continue
		}
		b, err := os.ReadFile(filepath.Join(path, e.Name()))
		if err != nil {
			return nil, err
		}
		t, err := parseCSV(e.Name(), b)
		if err != nil {
			return nil, err
		}
		f[e.Name()] = t
	}
	return f, nil
}

// dirBytes is the raw content of a tree, for "nothing changed" comparisons.
func dirBytes(path string) map[string]string {
	m := map[string]string{}
	filepath.Walk(path, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(path, p)
		if fi.IsDir() {
			m[rel] = "dir"
			return nil
		}
		b, _ := os.ReadFile(p)
		m[rel] = string(b)
		return nil
	})
	return m
}
