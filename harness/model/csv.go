package model

import (
	"strings"
)

// Quote quotes a CSV cell.
func Quote(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

// NeedsQuote checks whether a cell can't be written bare.
func NeedsQuote(s string) bool {
	return s == "" || strings.ContainsAny(s, "\",\n\r") || strings.TrimSpace(s) != s || strings.HasPrefix(s, "#")
}

// CSV writes rows plainly, quoting only where needed.
func CSV(rows []Trace) string {
	var b strings.Builder
	for _, r := range rows {
		for i, e := range r.Events {
			cell := e.Text()
			if i == 0 && (r.Name != "" || strings.Contains(cell, ":")) {
				cell = r.Name + ":" + cell
			}
			if NeedsQuote(cell) {
				cell = Quote(cell)
			}
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(cell)
		}
		b.WriteByte('\n')
	}
	return b.String()
}
