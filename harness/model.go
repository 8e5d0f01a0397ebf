package main

// Own GTFS data model, CSV writer and reader. Shares no code with gtfsparser/gtfswriter.

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Row map[string]string

func (r Row) clone() Row {
	n := make(Row, len(r))
	for k, v := range r {
		n[k] = v
	}
	return n
}

// Feed is a set of named tables ("stops", "trips", ...).
type Feed struct {
	T    map[string][]Row
	Cols map[string][]string // explicit column order for writing (optional)
	Raw  map[string]string   // raw text overriding a table (corruption tests)
}

func NewFeed() *Feed { return &Feed{T: map[string][]Row{}, Cols: map[string][]string{}} }

func (f *Feed) Clone() *Feed {
	n := NewFeed()
	for k, rows := range f.T {
		c := make([]Row, len(rows))
		for i, r := range rows {
			c[i] = r.clone()
		}
		n.T[k] = c
	}
	for k, v := range f.Cols {
		n.Cols[k] = append([]string(nil), v...)
	}
	if f.Raw != nil {
		n.Raw = map[string]string{}
		for k, v := range f.Raw {
			n.Raw[k] = v
		}
	}
	return n
}

func (f *Feed) Size() int {
	n := 0
	for _, rows := range f.T {
		n += 20 * len(rows)
		for _, r := range rows {
			n += len(r)
		}
	}
	return n
}

var stdCols = map[string][]string{
	"agency":          {"agency_id", "agency_name", "agency_url", "agency_timezone", "agency_lang", "agency_phone", "agency_fare_url", "agency_email"},
	"feed_info":       {"feed_publisher_name", "feed_publisher_url", "feed_lang", "feed_start_date", "feed_end_date", "feed_version", "feed_contact_email", "feed_contact_url"},
	"stops":           {"stop_id", "stop_code", "stop_name", "stop_desc", "stop_lat", "stop_lon", "zone_id", "stop_url", "location_type", "parent_station", "stop_timezone", "wheelchair_boarding", "level_id", "platform_code"},
	"routes":          {"route_id", "agency_id", "route_short_name", "route_long_name", "route_desc", "route_type", "route_url", "route_color", "route_text_color", "route_sort_order", "continuous_pickup", "continuous_drop_off"},
	"trips":           {"route_id", "service_id", "trip_id", "trip_headsign", "trip_short_name", "direction_id", "block_id", "shape_id", "wheelchair_accessible", "bikes_allowed"},
	"stop_times":      {"trip_id", "arrival_time", "departure_time", "stop_id", "stop_sequence", "stop_headsign", "pickup_type", "drop_off_type", "continuous_pickup", "continuous_drop_off", "shape_dist_traveled", "timepoint"},
	"calendar":        {"service_id", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday", "start_date", "end_date"},
	"calendar_dates":  {"service_id", "date", "exception_type"},
	"fare_attributes": {"fare_id", "price", "currency_type", "payment_method", "transfers", "transfer_duration", "agency_id"},
	"fare_rules":      {"fare_id", "route_id", "origin_id", "destination_id", "contains_id"},
	"shapes":          {"shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence", "shape_dist_traveled"},
	"frequencies":     {"trip_id", "start_time", "end_time", "headway_secs", "exact_times"},
	"transfers":       {"from_stop_id", "to_stop_id", "from_route_id", "to_route_id", "from_trip_id", "to_trip_id", "transfer_type", "min_transfer_time"},
	"levels":          {"level_id", "level_index", "level_name"},
	"pathways":        {"pathway_id", "from_stop_id", "to_stop_id", "pathway_mode", "is_bidirectional", "length", "traversal_time", "stair_count", "max_slope", "min_width", "signposted_as", "reversed_signposted_as"},
	"attributions":    {"attribution_id", "agency_id", "route_id", "trip_id", "organization_name", "is_producer", "is_operator", "is_authority", "attribution_url", "attribution_email", "attribution_phone"},
}

var tableOrder = []string{"agency", "feed_info", "levels", "stops", "routes", "calendar", "calendar_dates", "shapes", "trips", "stop_times", "fare_attributes", "fare_rules", "frequencies", "transfers", "pathways", "attributions"}

// tables that must exist (possibly header only) for a feed to be accepted
var requiredTables = map[string]bool{"agency": true, "stops": true, "routes": true, "trips": true, "stop_times": true}

var stdColSet = func() map[string]map[string]bool {
	m := map[string]map[string]bool{}
	for t, cs := range stdCols {
		m[t] = map[string]bool{}
		for _, c := range cs {
			m[t][c] = true
		}
	}
	return m
}()

// columns for writing table t
func (f *Feed) writeCols(t string) []string {
	used := map[string]bool{}
	for _, r := range f.T[t] {
		for k := range r {
			used[k] = true
		}
	}
	var cols []string
	seen := map[string]bool{}
	for _, c := range f.Cols[t] {
		if !seen[c] {
			cols = append(cols, c)
			seen[c] = true
		}
	}
	for _, c := range stdCols[t] {
		// always write the columns that are required by the parser
		if (used[c] || reqCols[t][c]) && !seen[c] {
			cols = append(cols, c)
			seen[c] = true
		}
	}
	var rest []string
	for c := range used {
		if !seen[c] {
			rest = append(rest, c)
		}
	}
	sort.Strings(rest)
	return append(cols, rest...)
}

var reqCols = map[string]map[string]bool{
	"agency":          set("agency_name", "agency_url", "agency_timezone"),
	"stops":           set("stop_id", "stop_name", "stop_lat", "stop_lon", "parent_station"),
	"routes":          set("route_id", "route_type"),
	"trips":           set("route_id", "service_id", "trip_id"),
	"stop_times":      set("trip_id", "arrival_time", "departure_time", "stop_id", "stop_sequence"),
	"calendar":        set("service_id", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday", "start_date", "end_date"),
	"calendar_dates":  set("service_id", "date", "exception_type"),
	"fare_attributes": set("fare_id", "price", "currency_type", "payment_method", "transfers"),
	"fare_rules":      set("fare_id"),
	"shapes":          set("shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence"),
	"frequencies":     set("trip_id", "start_time", "end_time", "headway_secs"),
	"transfers":       set("transfer_type"),
	"levels":          set("level_id", "level_index"),
	"pathways":        set("pathway_id", "from_stop_id", "to_stop_id", "pathway_mode", "is_bidirectional"),
	"attributions":    set("organization_name"),
	"feed_info":       set("feed_publisher_name", "feed_publisher_url", "feed_lang"),
}

func set(s ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return m
}

// CSV returns the text of all files of the feed.
func (f *Feed) CSV() map[string]string {
	out := map[string]string{}
	for _, t := range tableOrder {
		rows, ok := f.T[t]
		if (!ok || len(rows) == 0) && !requiredTables[t] {
			if len(f.Cols[t]) == 0 {
				continue
			}
		}
		cols := f.writeCols(t)
		var b bytes.Buffer
		w := csv.NewWriter(&b)
		w.Write(cols)
		rec := make([]string, len(cols))
		for _, r := range rows {
			for i, c := range cols {
				rec[i] = r[c]
			}
			w.Write(rec)
		}
		w.Flush()
		out[t+".txt"] = b.String()
	}
	for t, raw := range f.Raw {
		if raw == "\x00absent" {
			delete(out, t+".txt")
		} else {
			out[t+".txt"] = raw
		}
	}
	return out
}

func (f *Feed) WriteDir(dir string) error {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for n, s := range f.CSV() {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// ParseTables reads CSV texts strictly.
func ParseTables(files map[string]string) (*Feed, error) {
	f := NewFeed()
	for name, txt := range files {
		if !strings.HasSuffix(name, ".txt") {
			return nil, fmt.Errorf("unexpected file %q", name)
		}
		t := strings.TrimSuffix(name, ".txt")
		if _, ok := stdCols[t]; !ok {
			return nil, fmt.Errorf("unexpected file %q", name)
		}
		r := csv.NewReader(strings.NewReader(txt))
		recs, err := r.ReadAll()
		if err != nil {
			return nil, fmt.Errorf("%s: %v", name, err)
		}
		if len(recs) == 0 {
			return nil, fmt.Errorf("%s: no header", name)
		}
		hdr := recs[0]
		dup := map[string]bool{}
		for _, h := range hdr {
			if dup[h] {
				return nil, fmt.Errorf("%s: column %q twice", name, h)
			}
			dup[h] = true
		}
		f.Cols[t] = hdr
		rows := make([]Row, 0, len(recs)-1)
		for _, rec := range recs[1:] {
			row := make(Row, len(hdr))
			for i, v := range rec {
				if v != "" {
					row[hdr[i]] = v
				}
			}
			rows = append(rows, row)
		}
		f.T[t] = rows
	}
	return f, nil
}

func ReadDir(dir string) (map[string]string, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	for _, e := range ents {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return nil, err
		}
		m[e.Name()] = string(b)
	}
	return m, nil
}

// ---- scalar helpers ----

func f32s(s string) string {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return "!" + s
	}
	return strconv.FormatFloat(float64(float32(v)), 'f', -1, 32)
}

func pf(s string) float64 {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return math.NaN()
	}
	return float64(float32(v))
}

func atoi(s string, def int) int {
	if s == "" {
		return def
	}
	v, err := strconv.Atoi(s)
	if err != nil {
		return def
	}
	return v
}

func parseTime(s string) int {
	if s == "" {
		return -1
	}
	p := strings.Split(s, ":")
	if len(p) != 3 {
		return -2
	}
	h, e1 := strconv.Atoi(p[0])
	m, e2 := strconv.Atoi(p[1])
	sec, e3 := strconv.Atoi(p[2])
	if e1 != nil || e2 != nil || e3 != nil || h < 0 || m < 0 || sec < 0 || m > 59 || sec > 59 {
		return -2
	}
	return h*3600 + m*60 + sec
}

func fmtTime(t int) string {
	if t < 0 {
		return ""
	}
	return fmt.Sprintf("%02d:%02d:%02d", t/3600, t/60%60, t%60)
}

var epoch = time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC)

// dayNum converts YYYYMMDD to days since 1900-01-01 (-1: invalid).
func dayNum(s string) int {
	if len(s) != 8 {
		return -1
	}
	t, err := time.Parse("20060102", s)
	if err != nil {
		return -1
	}
	return int(t.Sub(epoch).Hours()+0.5) / 24
}

func dayStr(d int) string { return epoch.AddDate(0, 0, d).Format("20060102") }

// weekday: 0 = Monday (1900-01-01 was a Monday)
func dayWd(d int) int { return ((d % 7) + 7) % 7 }

var wdNames = []string{"monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"}

// ---- normalisation: default values become absent, numbers canonical ----

type fkind int

const (
	kS fkind = iota
	kI       // integer
	kF       // float32
	kColor
	kTime
	kLang
)

type fdef struct {
	k   fkind
	def string // value that equals absence
}

var fdefs = map[string]map[string]fdef{
	"agency": {"agency_lang": {kLang, ""}},
	"stops":  {"stop_lat": {kF, ""}, "stop_lon": {kF, ""}, "location_type": {kI, "0"}, "wheelchair_boarding": {kI, "0"}},
	"routes": {"route_type": {kI, ""}, "route_color": {kColor, "FFFFFF"}, "route_text_color": {kColor, "000000"},
		"route_sort_order": {kI, ""}, "continuous_pickup": {kI, "1"}, "continuous_drop_off": {kI, "1"}},
	"trips": {"direction_id": {kI, ""}, "wheelchair_accessible": {kI, "0"}, "bikes_allowed": {kI, "0"}},
	"stop_times": {"arrival_time": {kTime, ""}, "departure_time": {kTime, ""}, "stop_sequence": {kI, ""},
		"pickup_type": {kI, "0"}, "drop_off_type": {kI, "0"}, "continuous_pickup": {kI, "1"}, "continuous_drop_off": {kI, "1"},
		"shape_dist_traveled": {kF, ""}},
	"calendar":        {},
	"calendar_dates":  {"exception_type": {kI, ""}},
	"fare_attributes": {"payment_method": {kI, "0"}, "transfers": {kI, ""}, "transfer_duration": {kI, "0"}},
	"shapes":          {"shape_pt_lat": {kF, ""}, "shape_pt_lon": {kF, ""}, "shape_pt_sequence": {kI, ""}, "shape_dist_traveled": {kF, ""}},
	"frequencies":     {"start_time": {kTime, ""}, "end_time": {kTime, ""}, "headway_secs": {kI, ""}, "exact_times": {kI, "0"}},
	"transfers":       {"transfer_type": {kI, "0"}, "min_transfer_time": {kI, ""}},
	"levels":          {"level_index": {kF, "0"}},
	"pathways": {"pathway_mode": {kI, ""}, "is_bidirectional": {kI, ""}, "length": {kF, ""}, "traversal_time": {kI, ""},
		"stair_count": {kI, "0"}, "max_slope": {kF, "0"}, "min_width": {kF, ""}},
	"attributions": {"is_producer": {kI, "0"}, "is_operator": {kI, "0"}, "is_authority": {kI, "0"}},
}

func normVal(t, c, v string) string {
	d, ok := fdefs[t][c]
	if !ok {
		return v
	}
	if v == "" {
		return ""
	}
	switch d.k {
	case kI:
		n, err := strconv.Atoi(v)
		if err != nil {
			return "!" + v
		}
		v = strconv.Itoa(n)
	case kF:
		v = f32s(v)
		if v == "-0" {
			v = "0"
		}
	case kColor:
		v = strings.ToUpper(v)
	case kLang:
		v = strings.ToLower(v)
	case kTime:
		n := parseTime(v)
		if n < 0 {
			return "!" + v
		}
		v = fmtTime(n)
	}
	if v == d.def {
		return ""
	}
	return v
}

// Norm returns a copy of the feed in normal form (see C04: defaults absent,
// canonical numbers, derived stop_headsign dropped).
func (f *Feed) Norm() *Feed {
	n := NewFeed()
	// stop_headsign is replaced by the parser library with the trip's headsign: not judged
	for t, rows := range f.T {
		if _, ok := stdCols[t]; !ok {
			continue
		}
		nr := make([]Row, 0, len(rows))
		for _, r := range rows {
			m := make(Row, len(r))
			for c, v := range r {
				if x := normVal(t, c, v); x != "" {
					m[c] = x
				}
			}
			switch t {
			case "stop_times":
				delete(m, "stop_headsign")
				if m["arrival_time"] == "" || m["departure_time"] == "" {
					delete(m, "timepoint")
				} else if m["timepoint"] == "1" {
					delete(m, "timepoint")
				}
			case "routes":
				if m["route_short_name"] == m["route_long_name"] {
					delete(m, "route_long_name")
				}
			}
			nr = append(nr, m)
		}
		n.T[t] = nr
	}
	// a calendar row without any weekday says nothing if the service has exceptions
	if len(n.T["calendar"]) > 0 {
		exc := map[string]bool{}
		for _, r := range n.T["calendar_dates"] {
			exc[r["service_id"]] = true
		}
		var keep []Row
		for _, r := range n.T["calendar"] {
			none := true
			for _, d := range wdNames {
				none = none && r[d] != "1"
			}
			if !none || !exc[r["service_id"]] {
				keep = append(keep, r)
			}
		}
		n.T["calendar"] = keep
	}
	ag := n.T["agency"]
	if len(ag) == 1 {
		for _, t := range []string{"routes", "fare_attributes"} {
			for _, r := range n.T[t] {
				if r["agency_id"] == "" && ag[0]["agency_id"] != "" {
					r["agency_id"] = ag[0]["agency_id"]
				}
			}
		}
	}
	return n
}

// ---- typed view ----

type ST struct {
	Stop             string
	Arr, Dep, Seq    int
	Pu, Do, CPu, CDo int
	TP               bool
	Dist             float64
	Row              Row
}

type Pt struct {
	Lat, Lon float64
	Seq      int
	Dist     float64
	Row      Row
}

type Svc struct {
	ID         string
	HasCal     bool
	Mask       [7]bool
	Start, End int
	Exc        map[int]int // day -> 1/2
	Days       []int       // active days, sorted
}

func (s *Svc) DaysKey() string {
	var b strings.Builder
	for _, d := range s.Days {
		b.WriteString(strconv.Itoa(d))
		b.WriteByte(',')
	}
	return b.String()
}

type View struct {
	F       *Feed // normalised
	Agency  map[string]Row
	Stop    map[string]Row
	Route   map[string]Row
	Trip    map[string]Row
	Level   map[string]Row
	Fare    map[string]Row
	Path    map[string]Row
	Svc     map[string]*Svc
	Shape   map[string][]Pt
	ST      map[string][]ST
	Freq    map[string][]Row
	FareRul map[string][]Row // by fare id
	Dups    []string         // duplicated ids
}

func index(rows []Row, key string, t string, dups *[]string) map[string]Row {
	m := make(map[string]Row, len(rows))
	for _, r := range rows {
		if _, ok := m[r[key]]; ok {
			*dups = append(*dups, t+"."+key+"="+r[key])
		}
		m[r[key]] = r
	}
	return m
}

func NewView(raw *Feed) *View {
	f := raw.Norm()
	v := &View{F: f}
	v.Agency = index(f.T["agency"], "agency_id", "agency", &v.Dups)
	v.Stop = index(f.T["stops"], "stop_id", "stops", &v.Dups)
	v.Route = index(f.T["routes"], "route_id", "routes", &v.Dups)
	v.Trip = index(f.T["trips"], "trip_id", "trips", &v.Dups)
	v.Level = index(f.T["levels"], "level_id", "levels", &v.Dups)
	v.Fare = index(f.T["fare_attributes"], "fare_id", "fare_attributes", &v.Dups)
	v.Path = index(f.T["pathways"], "pathway_id", "pathways", &v.Dups)
	v.Svc = map[string]*Svc{}
	for _, r := range f.T["calendar"] {
		s := &Svc{ID: r["service_id"], HasCal: true, Start: dayNum(r["start_date"]), End: dayNum(r["end_date"]), Exc: map[int]int{}}
		for i, n := range wdNames {
			s.Mask[i] = r[n] == "1"
		}
		if _, ok := v.Svc[s.ID]; ok {
			v.Dups = append(v.Dups, "calendar.service_id="+s.ID)
		}
		v.Svc[s.ID] = s
	}
	for _, r := range f.T["calendar_dates"] {
		id := r["service_id"]
		s := v.Svc[id]
		if s == nil {
			s = &Svc{ID: id, Start: -1, End: -1, Exc: map[int]int{}}
			v.Svc[id] = s
		}
		d := dayNum(r["date"])
		if _, ok := s.Exc[d]; ok {
			v.Dups = append(v.Dups, "calendar_dates "+id+" "+r["date"])
		}
		s.Exc[d] = atoi(r["exception_type"], 0)
	}
	for _, s := range v.Svc {
		s.calcDays()
	}
	v.Shape = map[string][]Pt{}
	for _, r := range f.T["shapes"] {
		d := math.NaN()
		if x := r["shape_dist_traveled"]; x != "" {
			d = pf(x)
		}
		v.Shape[r["shape_id"]] = append(v.Shape[r["shape_id"]], Pt{pf(r["shape_pt_lat"]), pf(r["shape_pt_lon"]), atoi(r["shape_pt_sequence"], -1), d, r})
	}
	for id, p := range v.Shape {
		sort.SliceStable(p, func(i, j int) bool { return p[i].Seq < p[j].Seq })
		for i := 1; i < len(p); i++ {
			if p[i].Seq == p[i-1].Seq {
				v.Dups = append(v.Dups, fmt.Sprintf("shape %s seq %d", id, p[i].Seq))
			}
		}
	}
	v.ST = map[string][]ST{}
	for _, r := range f.T["stop_times"] {
		d := math.NaN()
		if x := r["shape_dist_traveled"]; x != "" {
			d = pf(x)
		}
		st := ST{Stop: r["stop_id"], Arr: parseTime(r["arrival_time"]), Dep: parseTime(r["departure_time"]), Seq: atoi(r["stop_sequence"], -1),
			Pu: atoi(r["pickup_type"], 0), Do: atoi(r["drop_off_type"], 0), CPu: atoi(r["continuous_pickup"], 1), CDo: atoi(r["continuous_drop_off"], 1),
			TP: r["timepoint"] == "", Dist: d, Row: r}
		v.ST[r["trip_id"]] = append(v.ST[r["trip_id"]], st)
	}
	for id, p := range v.ST {
		sort.SliceStable(p, func(i, j int) bool { return p[i].Seq < p[j].Seq })
		for i := 1; i < len(p); i++ {
			if p[i].Seq == p[i-1].Seq {
				v.Dups = append(v.Dups, fmt.Sprintf("stop_times %s seq %d", id, p[i].Seq))
			}
		}
	}
	v.Freq = map[string][]Row{}
	for _, r := range f.T["frequencies"] {
		v.Freq[r["trip_id"]] = append(v.Freq[r["trip_id"]], r)
	}
	v.FareRul = map[string][]Row{}
	for _, r := range f.T["fare_rules"] {
		v.FareRul[r["fare_id"]] = append(v.FareRul[r["fare_id"]], r)
	}
	return v
}

func (s *Svc) calcDays() {
	s.Days = nil
	if s.HasCal && s.Start >= 0 && s.End >= 0 {
		for d := s.Start; d <= s.End; d++ {
			if s.Mask[dayWd(d)] && s.Exc[d] != 2 {
				s.Days = append(s.Days, d)
			}
		}
	}
	for d, t := range s.Exc {
		if t == 1 {
			in := s.HasCal && d >= s.Start && d <= s.End && s.Mask[dayWd(d)]
			if !in {
				s.Days = append(s.Days, d)
			}
		}
	}
	sort.Ints(s.Days)
}

// rowKey renders a row canonically, without the given columns.
func rowKey(r Row, omit ...string) string {
	ks := make([]string, 0, len(r))
outer:
	for k, v := range r {
		if v == "" {
			continue
		}
		for _, o := range omit {
			if o == k {
				continue outer
			}
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(strconv.Quote(r[k]))
		b.WriteByte(' ')
	}
	return b.String()
}
