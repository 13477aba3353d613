package model

import "time"

// VSetTime moves an entry in time (the conformance driver's virtual clock).
func VSetTime(h *HistoryEntry, t time.Time) { h.timestamp = t }
