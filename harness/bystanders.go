package main

import "slices"

// bystanders returns options that have nothing to do on the feeds of a case, so that the property has to hold as it does without them.
func bystanders(r *Rng, id string, c *Case) []string {
	if id < "C05" || slices.Contains([]string{"C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C33"}, id) {
		return nil
	}
	in := func(ids ...string) bool { return slices.Contains(ids, id) }
	max := func(t string) (n int) {
		for _, f := range c.Feeds {
			n += len(f.T[t])
		}
		return
	}
	all := func(t string, ok func(x Row) bool) bool {
		for _, f := range c.Feeds {
			for _, x := range f.T[t] {
				if !ok(x) {
					return false
				}
			}
		}
		return true
	}
	var opts []string
	add := func(ok bool, o ...string) {
		if ok {
			opts = append(opts, o...)
		}
	}
	add(!c.has("-W"), "-W")
	add(!in("C34"), "-e", "-D", "-z")
	add(max("shapes") == 0, "-m", "-s", "-S", "-r", "--snap-stops")
	add(max("shapes") == 0 && !in("C34"), "--drop-shapes")
	if !in("C31", "C34") {
		flat := all("stops", func(x Row) bool { return x["parent_station"] == "" })
		add(flat, "--fix-far-away-parents")
		add(all("stops", func(x Row) bool { return x["platform_code"] == "" }), "--drop-platform-for-parentless")
	}
	add(max("agency") == 1 && !in("C14", "C34"), "-A")
	add(max("routes") == 1 && !in("C13", "C34"), "-R")
	if in("C06", "C07", "C08", "C09", "C11", "C12", "C13", "C14") {
		ok := true
		for _, f := range c.Feeds {
			w := NewView(f)
			for _, sts := range w.ST {
				for i := range sts {
					ok = ok && (i == 0 || sts[i].Stop != sts[i-1].Stop)
				}
			}
		}
		add(ok, "--group-adj-stop-times")
	}
	add(in("C05", "C10", "C11", "C12", "C13", "C14", "C15", "C29", "C30", "C31", "C32") && max("calendar_dates") == 0, "-c")
	opts = subset(r, opts, .4)
	return slices.DeleteFunc(opts, func(o string) bool { return c.has(o) })
}
