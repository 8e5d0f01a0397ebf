From f1e7b3c6a386c30de8c0315b2eedcb0c174517eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 01/42] fix: use the week start the coverage search used when
 writing minimized services

---
 processors/serviceminimizer.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/processors/serviceminimizer.go b/processors/serviceminimizer.go
index 0edc9f2..2daf039 100755
--- a/processors/serviceminimizer.go
+++ b/processors/serviceminimizer.go
@@ -179,7 +179,7 @@ out:
 		}
 	}
 
-	sm.updateService(service, bestMap, bestA, bestB, startTime, endTime, start, end)
+	sm.updateService(service, bestMap, bestA, bestB, startTimeAm, start, end)
 }
 
 func (sm ServiceMinimizer) countExceptions(s *gtfs.Service, actmap []bool, bm uint, startDiff int, endDiff int, a int, b int, max uint) uint {
@@ -310,7 +310,7 @@ func (sm ServiceMinimizer) getActiveOnMap(startTimeAm time.Time, endTimeAm time.
 	return activeOn
 }
 
-func (sm ServiceMinimizer) updateService(service *gtfs.Service, bestMap uint, bestA int, bestB int, startTime time.Time, endTime time.Time, start gtfs.Date, end gtfs.Date) {
+func (sm ServiceMinimizer) updateService(service *gtfs.Service, bestMap uint, bestA int, bestB int, startTimeAm time.Time, start gtfs.Date, end gtfs.Date) {
 	newMap := [7]bool{hasBit(bestMap, 0),
 		hasBit(bestMap, 1),
 		hasBit(bestMap, 2),
@@ -318,8 +318,9 @@ func (sm ServiceMinimizer) updateService(service *gtfs.Service, bestMap uint, be
 		hasBit(bestMap, 4),
 		hasBit(bestMap, 5),
 		hasBit(bestMap, 6)}
-	newBegin := startTime.AddDate(0, 0, bestA)
-	newEnd := startTime.AddDate(0, 0, bestB)
+	// bestA and bestB count from the beginning of the first week
+	newBegin := startTimeAm.AddDate(0, 0, bestA)
+	newEnd := startTimeAm.AddDate(0, 0, bestB)
 	newExceptions := make([]*serviceException, 0)
 
 	// crop at the beginning
-- 
2.43.0


From b53ae2512c035e8c362469b1c25bf2a2e1db7cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 02/42] fix: never replace a service by a larger representation
 when minimizing

---
 processors/serviceminimizer.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/processors/serviceminimizer.go b/processors/serviceminimizer.go
index 2daf039..590bccc 100755
--- a/processors/serviceminimizer.go
+++ b/processors/serviceminimizer.go
@@ -366,6 +366,21 @@ func (sm ServiceMinimizer) updateService(service *gtfs.Service, bestMap uint, be
 		}
 	}
 
+	newEntries := len(newExceptions)
+	if newMap != [7]bool{} {
+		newEntries++
+	}
+
+	oldEntries := len(service.Exceptions())
+	if service.RawDaymap() != 0 {
+		oldEntries++
+	}
+
+	if newEntries > oldEntries {
+		// the original was better than any coverage by full weeks
+		return
+	}
+
 	service.SetExceptions(make(map[gtfs.Date]bool, 0))
 
 	for _, e := range newExceptions {
-- 
2.43.0


From d8443fee12fb8b62f120f793885a9e4a99234d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 03/42] fix: exit with a non-zero status after an internal or
 option error

---
 gtfstidy.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index ec0cce0..141cf09 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -212,6 +212,7 @@ func main() {
 	defer func() {
 		if r := recover(); r != nil {
 			fmt.Fprintln(os.Stderr, "Error:", r)
+			os.Exit(1)
 		}
 	}()
 
-- 
2.43.0


From 1372f2bb834e8c25d62f7eabf3ebc799376930b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 04/42] fix: do not loop forever deduplicating trips of a
 service that is never active

---
 processors/tripduplicateremover.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/processors/tripduplicateremover.go b/processors/tripduplicateremover.go
index a62ecaa..8cb8c17 100755
--- a/processors/tripduplicateremover.go
+++ b/processors/tripduplicateremover.go
@@ -684,6 +684,10 @@ func (m *TripDuplicateRemover) writeServiceList(s *gtfs.Service) {
 	// make sure service list is empty first
 	m.serviceList[s] = nil
 	start := s.GetFirstActiveDate()
+	if start.IsEmpty() {
+		// never active
+		return
+	}
 	end := s.GetLastActiveDate()
 	endT := end.GetTime()
 
-- 
2.43.0


From 41ecb15315b1195e1326255754ed11fa9aa8e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 05/42] fix: do not loop forever deduplicating services without
 any defined date

---
 processors/serviceduplicateremover.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/processors/serviceduplicateremover.go b/processors/serviceduplicateremover.go
index 488b064..00be13e 100755
--- a/processors/serviceduplicateremover.go
+++ b/processors/serviceduplicateremover.go
@@ -120,7 +120,12 @@ func (m ServiceDuplicateRemover) getActiveMaps(feed *gtfsparser.Feed) map[*gtfs.
 		go func(j int, chunk []*gtfs.Service) {
 			for _, s := range chunk {
 				first := s.GetFirstActiveDate()
-				last := s.GetLastActiveDate()
+				last := first
+
+				// for services without any active date, there is no last active date
+				if !first.IsEmpty() {
+					last = s.GetLastActiveDate()
+				}
 
 				cur := ServiceCompressed{}
 
-- 
2.43.0


From 75eb88ad087949a9754e0e162a649ad060a06063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 06/42] fix: do not crash reclustering a feed without stops

---
 processors/stopreclusterer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 3e4fcef..6d63503 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -78,6 +78,11 @@ type StopReclusterer struct {
 func (m StopReclusterer) Run(feed *gtfsparser.Feed) {
 	fmt.Fprintf(os.Stdout, "Reclustering stops... ")
 
+	if len(feed.Stops) == 0 {
+		fmt.Fprintf(os.Stdout, "done. (-0 clusters) [-0.00%%]\n")
+		return
+	}
+
 	m.splitregex = regexp.MustCompile(`[^\pL]`)
 
 	clusters := make([]*StopCluster, 0)
-- 
2.43.0


From 761e2b82c0cd88ad37594e65bb1d8c57acbcfb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 07/42] fix: index every stop with coordinates for
 reclustering, and find neighbours in the first grid cells

---
 processors/stopclusteridx.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/processors/stopclusteridx.go b/processors/stopclusteridx.go
index 8653ac2..1c98496 100755
--- a/processors/stopclusteridx.go
+++ b/processors/stopclusteridx.go
@@ -34,13 +34,15 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 			x, y := latLngToWebMerc(s.Lat, s.Lon)
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -49,13 +51,15 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 			x, y := latLngToWebMerc(s.Lat, s.Lon)
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -72,8 +76,8 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 		return &idx
 	}
 
-	idx.xWidth = uint(math.Ceil(idx.width / idx.cellWidth))
-	idx.yHeight = uint(math.Ceil(idx.height / idx.cellHeight))
+	idx.xWidth = uint(math.Floor(idx.width/idx.cellWidth)) + 1
+	idx.yHeight = uint(math.Floor(idx.height/idx.cellHeight)) + 1
 
 	// resize rows
 	idx.grid = make([][]map[int]bool, idx.xWidth)
@@ -98,6 +102,11 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 func (gi *StopClusterIdx) Add(lat float64, lon float64, obj int) {
 	lx, ly := latLngToWebMerc(float32(lat), float32(lon))
 
+	// stops without coordinates
+	if math.IsNaN(lx) || math.IsNaN(ly) {
+		return
+	}
+
 	x := gi.getCellXFromX(lx)
 	y := gi.getCellYFromY(ly)
 
@@ -149,8 +158,13 @@ func (gi *StopClusterIdx) GetNeighborsByLatLon(lat float64, lon float64, d float
 
 	lx, ly := latLngToWebMerc(float32(lat), float32(lon))
 
-	swX := max(0, gi.getCellXFromX(lx)-xPerm)
-	swY := max(0, gi.getCellYFromY(ly)-yPerm)
+	// stops without coordinates
+	if math.IsNaN(lx) || math.IsNaN(ly) {
+		return ret
+	}
+
+	swX := gi.getCellXFromX(lx)
+	swY := gi.getCellYFromY(ly)
 
 	neX := min(gi.xWidth-1, gi.getCellXFromX(lx)+xPerm)
 	neY := min(gi.yHeight-1, gi.getCellYFromY(ly)+yPerm)
-- 
2.43.0


From 139393879e0ed2c50a8fad51afb08c0eda46dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 08/42] fix: keep stations without children when reclustering,
 and ignore missing coordinates and undefined name similarities

---
 processors/stopreclusterer.go | 70 ++++++++++++++++++++++++++---------
 processors/util.go            |  8 ++++
 2 files changed, 60 insertions(+), 18 deletions(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 6d63503..08f6e6d 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -111,7 +111,7 @@ func (m StopReclusterer) Run(feed *gtfsparser.Feed) {
 				// there already is a cluster with the parent, add it
 				clusters[parentClusterMap[s.Parent_station]].Childs = append(clusters[parentClusterMap[s.Parent_station]].Childs, s)
 				// and update the child cluster map
-				childClusterMap[s] = childClusterMap[s.Parent_station]
+				childClusterMap[s] = parentClusterMap[s.Parent_station]
 			} else {
 				// create a new single-element cluster with this stop
 				clusters = append(clusters, NewStopCluster(s))
@@ -231,15 +231,22 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 		parent = m.createParent(cl.Childs, feed)
 	} else {
 		//  take the parent with the best overall similarity
-		parent = nil
+		parent = cl.Parents[0]
 		bestsimi := float32(0.0)
 
 		for _, p := range cl.Parents {
 			cursimi := float32(0.0)
-			for _, c := range cl.Childs {
-				cursimi += m.stopSimi(p, c)
+			c := 0
+			for _, ch := range cl.Childs {
+				if noCoords(ch) {
+					continue
+				}
+				cursimi += m.stopSimi(p, ch)
+				c++
+			}
+			if c > 0 {
+				cursimi = cursimi / float32(c)
 			}
-			cursimi = cursimi / float32(len(cl.Childs))
 			if cursimi >= bestsimi {
 				parent = p
 				bestsimi = cursimi
@@ -267,10 +274,21 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 				tk_new.To_stop = parent
 			}
 
+			if tk_new == tk {
+				continue
+			}
+
 			if _, ok := feed.Transfers[tk_new]; !ok {
 				feed.Transfers[tk_new] = tv
-				delete(feed.Transfers, tk)
+
+				// keep the additional fields
+				for k := range feed.TransfersAddFlds {
+					if v, ok := feed.TransfersAddFlds[k][tk]; ok {
+						feed.TransfersAddFlds[k][tk_new] = v
+					}
+				}
 			}
+			feed.DeleteTransfer(tk)
 		}
 
 		for _, p := range feed.Pathways {
@@ -299,9 +317,14 @@ func (m *StopReclusterer) createParent(stops []*gtfs.Stop, feed *gtfsparser.Feed
 	ret.Timezone, _ = gtfs.NewTimezone("")
 	ret.Url = nil
 
+	c := 0
+
 	for _, st := range stops {
-		avgLat += st.Lat
-		avgLon += st.Lon
+		if !noCoords(st) {
+			avgLat += st.Lat
+			avgLon += st.Lon
+			c++
+		}
 
 		if ret.Wheelchair_boarding == 0 && st.Wheelchair_boarding != 0 {
 			ret.Wheelchair_boarding = st.Wheelchair_boarding
@@ -336,8 +359,8 @@ func (m *StopReclusterer) createParent(stops []*gtfs.Stop, feed *gtfsparser.Feed
 	}
 
 	ret.Desc = ""
-	ret.Lat = avgLat / float32(len(stops))
-	ret.Lon = avgLon / float32(len(stops))
+	ret.Lat = avgLat / float32(c)
+	ret.Lon = avgLon / float32(c)
 	ret.Location_type = 1
 	ret.Parent_station = nil
 	ret.Level = nil
@@ -427,27 +450,33 @@ func (m *StopReclusterer) getNearestClusters(cId int, clusters []*StopCluster) [
 func (m *StopReclusterer) clusterSimi(a *StopCluster, b *StopCluster) float32 {
 	ret := float32(0.0)
 	c := 0
+
+	add := func(stA *gtfs.Stop, stB *gtfs.Stop) {
+		// stops without coordinates cannot be compared
+		if noCoords(stA) || noCoords(stB) {
+			return
+		}
+		ret += m.stopSimi(stA, stB)
+		c++
+	}
+
 	for _, stA := range a.Childs {
 		for _, stB := range b.Childs {
-			ret += m.stopSimi(stA, stB)
-			c++
+			add(stA, stB)
 		}
 
 		for _, stB := range b.Parents {
-			ret += m.stopSimi(stA, stB)
-			c++
+			add(stA, stB)
 		}
 	}
 
 	for _, stA := range a.Parents {
 		for _, stB := range b.Childs {
-			ret += m.stopSimi(stA, stB)
-			c++
+			add(stA, stB)
 		}
 
 		for _, stB := range b.Parents {
-			ret += m.stopSimi(stA, stB)
-			c++
+			add(stA, stB)
 		}
 	}
 
@@ -458,6 +487,11 @@ func (m *StopReclusterer) clusterSimi(a *StopCluster, b *StopCluster) float32 {
 	return ret / float32(c)
 }
 
+// Check whether a stop has no coordinates (generic nodes and boarding areas)
+func noCoords(s *gtfs.Stop) bool {
+	return math.IsNaN(float64(s.Lat)) || math.IsNaN(float64(s.Lon))
+}
+
 func (m *StopReclusterer) stopSimi(a *gtfs.Stop, b *gtfs.Stop) float32 {
 	geosimi := 0.5 - 0.5*math.Tanh((distSApprox(a, b)-m.DistThreshold)/(m.DistThreshold*0.25))
 
diff --git a/processors/util.go b/processors/util.go
index f2899d8..6dea816 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -148,6 +148,14 @@ func cosSimi(a map[int]float64, b map[int]float64) float64 {
 		}
 	}
 
+	if s1 == 0 || s2 == 0 {
+		// the angle is undefined for zero vectors
+		if s1 == s2 {
+			return 1
+		}
+		return 0
+	}
+
 	return sumA / (math.Sqrt(s1) * math.Sqrt(s2))
 }
 
-- 
2.43.0


From d38f01be7a3a195124a279ae40abc5d00e872f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 09/42] fix: wait for all id minimizers, and do not crash if
 all ids are kept

---
 processors/idminimizer.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/processors/idminimizer.go b/processors/idminimizer.go
index a120d63..9ec7497 100755
--- a/processors/idminimizer.go
+++ b/processors/idminimizer.go
@@ -61,10 +61,13 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 	if minimizer.KeepPathways {
 		j = j - 1
 	}
-	if minimizer.KeepAttributions {
-		j = j - 1
-	}
 	fmt.Fprintf(os.Stdout, "Minimizing ids... ")
+
+	// attributions hang on agencies, routes and trips, so don't do this in parallel
+	if !minimizer.KeepAttributions {
+		minimizer.minimizeAttributionIds(feed)
+	}
+
 	sem := make(chan empty, j)
 
 	if !minimizer.KeepTrips {
@@ -121,13 +124,6 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 			sem <- empty{}
 		}()
 	}
-	if !minimizer.KeepAttributions {
-		go func() {
-			minimizer.minimizeAttributionIds(feed)
-			sem <- empty{}
-		}()
-	}
-
 	for i := 0; i < j; i++ {
 		<-sem
 	}
-- 
2.43.0


From 04c5090f0956e17464a00266be7e3963d95a4104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 10/42] fix: keep additional fields with their entity when
 minimizing ids

---
 processors/idminimizer.go | 109 ++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 53 deletions(-)

diff --git a/processors/idminimizer.go b/processors/idminimizer.go
index 9ec7497..f38b7b2 100755
--- a/processors/idminimizer.go
+++ b/processors/idminimizer.go
@@ -136,25 +136,21 @@ func (minimizer IDMinimizer) minimizeTripIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Trip)
+	newIds := make(map[string]string)
 	for _, t := range feed.Trips {
 		oldId := t.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		t.Id = newId
 		idCount = idCount + 1
 		newMap[t.Id] = t
-
-		// update additional fields
-		for k := range feed.TripsAddFlds {
-			feed.TripsAddFlds[k][newId] = feed.TripsAddFlds[k][oldId]
-			delete(feed.TripsAddFlds[k], oldId)
-		}
-
-		for k := range feed.StopTimesAddFlds {
-			feed.StopTimesAddFlds[k][newId] = feed.StopTimesAddFlds[k][oldId]
-			delete(feed.StopTimesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.TripsAddFlds, newIds)
+	renameAddFlds(feed.StopTimesAddFlds, newIds)
+	renameAddFlds(feed.FrequenciesAddFlds, newIds)
+
 	feed.Trips = newMap
 }
 
@@ -163,20 +159,19 @@ func (minimizer IDMinimizer) minimizeShapeIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Shape)
+	newIds := make(map[string]string)
 	for _, s := range feed.Shapes {
 		oldId := s.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		s.Id = newId
 		idCount = idCount + 1
 		newMap[s.Id] = s
-
-		// update additional fields
-		for k := range feed.ShapesAddFlds {
-			feed.ShapesAddFlds[k][newId] = feed.ShapesAddFlds[k][oldId]
-			delete(feed.ShapesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.ShapesAddFlds, newIds)
+
 	feed.Shapes = newMap
 }
 
@@ -185,20 +180,19 @@ func (minimizer IDMinimizer) minimizeRouteIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Route)
+	newIds := make(map[string]string)
 	for _, r := range feed.Routes {
 		oldId := r.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		r.Id = newId
 		idCount = idCount + 1
 		newMap[r.Id] = r
-
-		// update additional fields
-		for k := range feed.RoutesAddFlds {
-			feed.RoutesAddFlds[k][newId] = feed.RoutesAddFlds[k][oldId]
-			delete(feed.RoutesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.RoutesAddFlds, newIds)
+
 	feed.Routes = newMap
 }
 
@@ -221,20 +215,19 @@ func (minimizer IDMinimizer) minimizeStopIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Stop)
+	newIds := make(map[string]string)
 	for _, s := range feed.Stops {
 		oldId := s.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		s.Id = newId
 		idCount = idCount + 1
 		newMap[s.Id] = s
-
-		// update additional fields
-		for k := range feed.StopsAddFlds {
-			feed.StopsAddFlds[k][newId] = feed.StopsAddFlds[k][oldId]
-			delete(feed.StopsAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.StopsAddFlds, newIds)
+
 	feed.Stops = newMap
 }
 
@@ -281,20 +274,19 @@ func (minimizer IDMinimizer) minimizeAgencyIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Agency)
+	newIds := make(map[string]string)
 	for _, a := range feed.Agencies {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.AgenciesAddFlds {
-			feed.AgenciesAddFlds[k][newId] = feed.AgenciesAddFlds[k][oldId]
-			delete(feed.AgenciesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.AgenciesAddFlds, newIds)
+
 	feed.Agencies = newMap
 }
 
@@ -303,20 +295,20 @@ func (minimizer IDMinimizer) minimizeFareIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.FareAttribute)
+	newIds := make(map[string]string)
 	for _, a := range feed.FareAttributes {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.FareAttributesAddFlds {
-			feed.FareAttributesAddFlds[k][newId] = feed.FareAttributesAddFlds[k][oldId]
-			delete(feed.FareAttributesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.FareAttributesAddFlds, newIds)
+	renameAddFlds(feed.FareRulesAddFlds, newIds)
+
 	feed.FareAttributes = newMap
 }
 
@@ -325,20 +317,19 @@ func (minimizer IDMinimizer) minimizePathwayIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Pathway)
+	newIds := make(map[string]string)
 	for _, a := range feed.Pathways {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.PathwaysAddFlds {
-			feed.PathwaysAddFlds[k][newId] = feed.PathwaysAddFlds[k][oldId]
-			delete(feed.PathwaysAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.PathwaysAddFlds, newIds)
+
 	feed.Pathways = newMap
 }
 
@@ -347,19 +338,31 @@ func (minimizer IDMinimizer) minimizeLevelIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Level)
+	newIds := make(map[string]string)
 	for _, a := range feed.Levels {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.LevelsAddFlds {
-			feed.LevelsAddFlds[k][newId] = feed.LevelsAddFlds[k][oldId]
-			delete(feed.LevelsAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.LevelsAddFlds, newIds)
+
 	feed.Levels = newMap
 }
+
+// Rename the entities in additional fields. Old and new IDs may overlap.
+func renameAddFlds[T any](addFlds map[string]map[string]T, newIds map[string]string) {
+	for k := range addFlds {
+		renamed := make(map[string]T, len(addFlds[k]))
+		for oldId, newId := range newIds {
+			if v, ok := addFlds[k][oldId]; ok {
+				renamed[newId] = v
+			}
+		}
+		addFlds[k] = renamed
+	}
+}
-- 
2.43.0


From 076c8e56edf019b6abb1b91cb9f9e5be894e32e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 11/42] fix: close filter polygons whose first and last point
 share a coordinate

---
 gtfstidy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 141cf09..a4d108c 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -373,7 +373,7 @@ func main() {
 		}
 
 		// ensure polygon is closed
-		if len(poly) > 1 && (poly[0][0] != poly[len(poly)-1][0] || poly[0][0] != poly[len(poly)-1][0]) {
+		if len(poly) > 1 && (poly[0][0] != poly[len(poly)-1][0] || poly[0][1] != poly[len(poly)-1][1]) {
 			poly = append(poly, [2]float64{poly[0][0], poly[0][1]})
 		}
 
@@ -404,7 +404,7 @@ func main() {
 			poly[3] = [2]float64{bbox[1][0], bbox[0][1]}
 
 			// ensure polygon is closed
-			if len(poly) > 1 && (poly[0][0] != poly[len(poly)-1][0] || poly[0][0] != poly[len(poly)-1][0]) {
+			if len(poly) > 1 && (poly[0][0] != poly[len(poly)-1][0] || poly[0][1] != poly[len(poly)-1][1]) {
 				poly = append(poly, [2]float64{poly[0][0], poly[0][1]})
 			}
 
-- 
2.43.0


From 721d617a4108843efb6a8126c7225e943e51493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 12/42] fix: restore kept ids independently of the iteration
 order, and do not output pathways twice

---
 gtfstidy.go | 75 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 22 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index a4d108c..34f78e9 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -18,6 +18,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -99,6 +100,22 @@ func parseCoords(s string) ([][2]float64, error) {
 	return ret, nil
 }
 
+// sortedIds returns the IDs in the map, shorter ones first. If prefixes are stripped
+// in this order, no original ID is blocked by an ID which is going to be stripped later.
+func sortedIds[T any](m map[string]T) []string {
+	ret := make([]string, 0, len(m))
+	for id := range m {
+		ret = append(ret, id)
+	}
+	sort.Slice(ret, func(i, j int) bool {
+		if len(ret[i]) != len(ret[j]) {
+			return len(ret[i]) < len(ret[j])
+		}
+		return ret[i] < ret[j]
+	})
+	return ret
+}
+
 func main() {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, "gtfstidy - (C) 2016-2023 by Patrick Brosi <info@patrickbrosi.de>\n\nUsage:\n\n  %s [<options>] [-o <outputfile>] <input GTFS>\n\nAllowed options:\n\n", os.Args[0])
@@ -679,7 +696,8 @@ func main() {
 
 		// restore stop IDs, if requested
 		if *keepStationIds && len(prefixes) > 0 {
-			for id, s := range feed.Stops {
+			for _, id := range sortedIds(feed.Stops) {
+				s := feed.Stops[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -705,35 +723,41 @@ func main() {
 		if *keepBlockIds && len(prefixes) > 0 {
 			// build set of existing block ids
 			existingBlockIds := make(map[string]bool)
-			oldToNewBlockIds := make(map[string]string)
+			newBlockIds := make(map[string]string)
 			for _, t := range feed.Trips {
 				if t.Block_id != nil && *t.Block_id != "" {
 					existingBlockIds[*t.Block_id] = true
 				}
 			}
 
-			for _, s := range feed.Trips {
+			for _, id := range sortedIds(existingBlockIds) {
 				for prefix := range prefixes {
-					if s.Block_id != nil && strings.HasPrefix(*s.Block_id, prefix) {
-						oldId := strings.TrimPrefix(*s.Block_id, prefix)
-						if _, ok := existingBlockIds[oldId]; !ok {
-							oldToNewBlockIds[*s.Block_id] = oldId
-							*s.Block_id = oldId
-
-							existingBlockIds[*s.Block_id] = true
-
-						} else if newId, ok := oldToNewBlockIds[*s.Block_id]; ok && newId == oldId {
-							*s.Block_id = oldId
+					if strings.HasPrefix(id, prefix) {
+						oldId := strings.TrimPrefix(id, prefix)
+						if !existingBlockIds[oldId] {
+							newBlockIds[id] = oldId
+							existingBlockIds[oldId] = true
+							delete(existingBlockIds, id)
 						}
 						break
 					}
 				}
 			}
+
+			for _, t := range feed.Trips {
+				if t.Block_id != nil {
+					// block ids may be shared between trips
+					if newId, ok := newBlockIds[*t.Block_id]; ok {
+						t.Block_id = &newId
+					}
+				}
+			}
 		}
 
 		// restore agency IDs, if requested
 		if *keepAgencyIds && len(prefixes) > 0 {
-			for id, s := range feed.Agencies {
+			for _, id := range sortedIds(feed.Agencies) {
+				s := feed.Agencies[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -757,7 +781,8 @@ func main() {
 
 		// restore fare attribute IDs, if requested
 		if *keepFareIds && len(prefixes) > 0 {
-			for id, s := range feed.FareAttributes {
+			for _, id := range sortedIds(feed.FareAttributes) {
+				s := feed.FareAttributes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -786,7 +811,8 @@ func main() {
 
 		// restore service IDs, if requested
 		if *keepServiceIds && len(prefixes) > 0 {
-			for id, s := range feed.Services {
+			for _, id := range sortedIds(feed.Services) {
+				s := feed.Services[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -804,7 +830,8 @@ func main() {
 
 		// restore route IDs, if requested
 		if *keepRouteIds && len(prefixes) > 0 {
-			for id, s := range feed.Routes {
+			for _, id := range sortedIds(feed.Routes) {
+				s := feed.Routes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -828,7 +855,8 @@ func main() {
 
 		// restore shape IDs, if requested
 		if *keepShapeIds && len(prefixes) > 0 {
-			for id, s := range feed.Shapes {
+			for _, id := range sortedIds(feed.Shapes) {
+				s := feed.Shapes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -852,7 +880,8 @@ func main() {
 
 		// restore trip IDs, if requested
 		if *keepTripIds && len(prefixes) > 0 {
-			for id, s := range feed.Trips {
+			for _, id := range sortedIds(feed.Trips) {
+				s := feed.Trips[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -886,7 +915,8 @@ func main() {
 
 		// restore level IDs, if requested
 		if *keepLevelIds && len(prefixes) > 0 {
-			for id, s := range feed.Levels {
+			for _, id := range sortedIds(feed.Levels) {
+				s := feed.Levels[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -910,7 +940,8 @@ func main() {
 
 		// restore pathway IDs, if requested
 		if *keepPathwayIds && len(prefixes) > 0 {
-			for id, s := range feed.Pathways {
+			for _, id := range sortedIds(feed.Pathways) {
+				s := feed.Pathways[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -924,7 +955,7 @@ func main() {
 								delete(feed.PathwaysAddFlds[k], id)
 							}
 
-							feed.DeletePathway(id)
+							delete(feed.Pathways, id)
 						}
 						break
 					}
-- 
2.43.0


From cb888077ce507727aef67ce59d392c501fa61e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 13/42] fix: restore attribution ids if they should be kept

---
 gtfstidy.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 34f78e9..031a871 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -963,6 +963,45 @@ func main() {
 			}
 		}
 
+		// restore attribution IDs, if requested
+		if *keepAttributionIds && len(prefixes) > 0 {
+			attributions := make(map[string]*gtfs.Attribution)
+			collect := func(attrs []*gtfs.Attribution) {
+				for _, a := range attrs {
+					if a.Id != "" {
+						attributions[a.Id] = a
+					}
+				}
+			}
+
+			collect(feed.Attributions)
+			for _, a := range feed.Agencies {
+				collect(a.Attributions)
+			}
+			for _, r := range feed.Routes {
+				collect(r.Attributions)
+			}
+			for _, t := range feed.Trips {
+				if t.Attributions != nil {
+					collect(*t.Attributions)
+				}
+			}
+
+			for _, id := range sortedIds(attributions) {
+				for prefix := range prefixes {
+					if strings.HasPrefix(id, prefix) {
+						oldId := strings.TrimPrefix(id, prefix)
+						if _, ok := attributions[oldId]; !ok {
+							attributions[oldId] = attributions[id]
+							attributions[oldId].Id = oldId
+							delete(attributions, id)
+						}
+						break
+					}
+				}
+			}
+		}
+
 		fmt.Fprintf(os.Stdout, "Outputting GTFS feed to '%s'...", *outputPath)
 
 		if _, err := os.Stat(*outputPath); os.IsNotExist(err) {
-- 
2.43.0


From 30443b2c478fe4384c2140c5be86e67ce320b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 14/42] fix: do not ignore a bounding box with a wrong number
 of coordinates

---
 gtfstidy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 031a871..cb76a24 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -426,6 +426,9 @@ func main() {
 			}
 
 			polys = append(polys, gtfsparser.NewPolygon(poly, make([][][2]float64, 0)))
+		} else if len(bbox) > 0 {
+			fmt.Fprintf(os.Stderr, "\nCould not parse bounding box filter: expected two latitude,longitude pairs.\n")
+			os.Exit(1)
 		}
 	}
 
-- 
2.43.0


From 901427208b7af94591e35125c5af29ff1bc9b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 15/42] fix: keep frequencies, attributions, transfers and
 additional fields of trips that are split over several services

---
 processors/servicecaldatesremover.go |  24 ++--
 processors/servicenonoverlapper.go   |  39 ++++++-
 processors/tripcopier.go             | 163 +++++++++++++++++++++++++++
 3 files changed, 214 insertions(+), 12 deletions(-)
 create mode 100644 processors/tripcopier.go

diff --git a/processors/servicecaldatesremover.go b/processors/servicecaldatesremover.go
index c1ff2c2..ffdfbac 100755
--- a/processors/servicecaldatesremover.go
+++ b/processors/servicecaldatesremover.go
@@ -20,6 +20,7 @@ type ServiceCalDatesRem struct {
 	ServiceMinimizer
 	tidc uint
 	sidc uint
+	used map[string]bool
 }
 
 // Run this ServiceMinimizer on some feed
@@ -28,6 +29,7 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 	calBefore, datesBefore := sm.countServices(feed)
 
 	newServices := make(map[*gtfs.Service][]*gtfs.Service, 0)
+	sm.used = make(map[string]bool)
 
 	for _, s := range feed.Services {
 		blocks := sm.getBlocks(feed, s)
@@ -50,12 +52,13 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 		delete(feed.Services, old.Id())
 	}
 
-	newTrips := make([]*gtfs.Trip, 0)
+	copies := make(map[*gtfs.Trip][]*gtfs.Trip)
 
 	for _, trip := range feed.Trips {
 		if val, ok := newServices[trip.Service]; ok {
 			// change first trip in place
 			trip.Service = val[0]
+			copies[trip] = []*gtfs.Trip{trip}
 
 			for i := 1; i < len(val); i++ {
 				newTrip := new(gtfs.Trip)
@@ -74,15 +77,20 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 				newTrip.Wheelchair_accessible = trip.Wheelchair_accessible
 				newTrip.StopTimes = append([]gtfs.StopTime(nil), trip.StopTimes...)
 
-				newTrips = append(newTrips, newTrip)
+				copies[trip] = append(copies[trip], newTrip)
 			}
 		}
 	}
 
-	for _, trip := range newTrips {
-		feed.Trips[trip.Id] = trip
+	for _, trips := range copies {
+		for _, trip := range trips[1:] {
+			feed.Trips[trip.Id] = trip
+			feed.NumStopTimes += len(trip.StopTimes)
+		}
 	}
 
+	copyTripData(feed, copies)
+
 	calAfter, datesAfter := sm.countServices(feed)
 
 	datesSign := ""
@@ -204,7 +212,7 @@ func (sm *ServiceCalDatesRem) getBlocks(feed *gtfsparser.Feed, s *gtfs.Service)
 		service.SetStart_date(s.GetFirstDefinedDate())
 		service.SetEnd_date(s.GetLastDefinedDate())
 
-		ret2 = append(ret, service)
+		ret2 = append(ret2, service)
 	}
 
 	return ret2
@@ -215,7 +223,8 @@ func (sm *ServiceCalDatesRem) freeTripId(feed *gtfsparser.Feed, prefix string) s
 	for sm.tidc < ^uint(0) {
 		sm.tidc += 1
 		tid := prefix + fmt.Sprint(sm.tidc)
-		if _, ok := feed.Trips[tid]; !ok {
+		if _, ok := feed.Trips[tid]; !ok && !sm.used["tid:"+tid] {
+			sm.used["tid:"+tid] = true
 			return tid
 		}
 	}
@@ -227,7 +236,8 @@ func (sm *ServiceCalDatesRem) freeServiceId(feed *gtfsparser.Feed, prefix string
 	for sm.sidc < ^uint(0) {
 		sm.sidc += 1
 		sid := prefix + fmt.Sprint(sm.sidc)
-		if _, ok := feed.Services[sid]; !ok {
+		if _, ok := feed.Services[sid]; !ok && !sm.used["sid:"+sid] {
+			sm.used["sid:"+sid] = true
 			return sid
 		}
 	}
diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index 7d6c19a..f14e467 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -64,7 +64,16 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 
 	// collect day types
 	for wd, _ := range days {
-		for day, trips := range days[wd] {
+		wdDays := make([]gtfs.Date, 0, len(days[wd]))
+		for day := range days[wd] {
+			wdDays = append(wdDays, day)
+		}
+		sort.Slice(wdDays, func(i, j int) bool {
+			return wdDays[i].GetTime().Before(wdDays[j].GetTime())
+		})
+
+		for _, day := range wdDays {
+			trips := days[wd][day]
 			found := false
 			for i, existing := range day_types[wd] {
 				if slices.Equal(trips, existing.Trips) {
@@ -78,7 +87,7 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 			}
 		}
 
-		sort.Slice(day_types[wd], func(i, j int) bool {
+		sort.SliceStable(day_types[wd], func(i, j int) bool {
 			return len(day_types[wd][i].Dates) > len(day_types[wd][j].Dates)
 		})
 
@@ -89,10 +98,14 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	oldTrips := make([]*gtfs.Trip, 0, len(feed.Trips))
+	copies := make(map[*gtfs.Trip][]*gtfs.Trip)
+	for _, t := range feed.Trips {
+		oldTrips = append(oldTrips, t)
+		copies[t] = make([]*gtfs.Trip, 0)
+	}
+
 	feed.Services = make(map[string]*gtfs.Service, 0)
-	feed.Trips = make(map[string]*gtfs.Trip, 0)
-	feed.TripsAddFlds = make(map[string]map[string]string)
-	feed.StopTimesAddFlds = make(map[string]map[string]map[int]string)
 
 	// write services
 	for wd, _ := range days {
@@ -134,6 +147,11 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				}
 			}
 
+			// week numbers repeat over the years
+			if _, ok := feed.Services[id]; ok {
+				id = freeId(id+" #", func(id string) bool { _, ok := feed.Services[id]; return ok })
+			}
+
 			exceptions := make(map[gtfs.Date]bool)
 			for _, d := range t.Dates {
 				exceptions[d] = true
@@ -146,12 +164,23 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 			for _, trip := range t.Trips {
 				newt := *trip
 				newt.Id = newt.Id + ":" + id
+				if _, ok := feed.Trips[newt.Id]; ok {
+					newt.Id = freeId(newt.Id+" #", func(id string) bool { _, ok := feed.Trips[id]; return ok })
+				}
 				newt.Service = feed.Services[id]
 				newt.StopTimes = append(gtfs.StopTimes{}, trip.StopTimes...)
 				feed.Trips[newt.Id] = &newt
+				feed.NumStopTimes += len(newt.StopTimes)
+				copies[trip] = append(copies[trip], &newt)
 			}
 		}
 	}
 
+	copyTripData(feed, copies)
+
+	for _, t := range oldTrips {
+		feed.DeleteTrip(t.Id)
+	}
+
 	fmt.Fprintf(os.Stdout, "done. (created %d calendar_dates.txt entries, %d monday, %d tuesday, %d wednesday, %d thursday, %d friday, %d saturday, %d sunday types)\n", len(feed.Services), len(day_types[1]), len(day_types[2]), len(day_types[3]), len(day_types[4]), len(day_types[5]), len(day_types[6]), len(day_types[0]))
 }
diff --git a/processors/tripcopier.go b/processors/tripcopier.go
new file mode 100644
index 0000000..26aaa54
--- /dev/null
+++ b/processors/tripcopier.go
@@ -0,0 +1,163 @@
+// Copyright 2016 Patrick Brosi
+// Authors: info@patrickbrosi.de
+//
+// Use of this source code is governed by a GPL v2
+// license that can be found in the LICENSE file
+
+package processors
+
+import (
+	"github.com/patrickbr/gtfsparser"
+	gtfs "github.com/patrickbr/gtfsparser/gtfs"
+	"sort"
+	"strconv"
+)
+
+// copyTripData attaches everything the feed stores about a trip to the copies
+// that were made of it: frequencies, attributions, additional fields and
+// transfers. If the original trip is not among its own copies, the transfers
+// are moved to the copies.
+func copyTripData(feed *gtfsparser.Feed, copies map[*gtfs.Trip][]*gtfs.Trip) {
+	olds := make([]*gtfs.Trip, 0, len(copies))
+	for old := range copies {
+		olds = append(olds, old)
+	}
+	sort.Slice(olds, func(i, j int) bool { return olds[i].Id < olds[j].Id })
+
+	attrIds := attributionIds(feed)
+
+	for _, old := range olds {
+		for _, trip := range copies[old] {
+			if trip == old {
+				continue
+			}
+
+			for k := range feed.TripsAddFlds {
+				if v, ok := feed.TripsAddFlds[k][old.Id]; ok {
+					feed.TripsAddFlds[k][trip.Id] = v
+				}
+			}
+
+			for k := range feed.StopTimesAddFlds {
+				if v, ok := feed.StopTimesAddFlds[k][old.Id]; ok {
+					feed.StopTimesAddFlds[k][trip.Id] = make(map[int]string, len(v))
+					for seq, val := range v {
+						feed.StopTimesAddFlds[k][trip.Id][seq] = val
+					}
+				}
+			}
+
+			if old.Frequencies != nil {
+				freqs := make([]*gtfs.Frequency, 0, len(*old.Frequencies))
+				for _, f := range *old.Frequencies {
+					freq := *f
+					freqs = append(freqs, &freq)
+
+					for k := range feed.FrequenciesAddFlds {
+						if v, ok := feed.FrequenciesAddFlds[k][old.Id][f]; ok {
+							if feed.FrequenciesAddFlds[k][trip.Id] == nil {
+								feed.FrequenciesAddFlds[k][trip.Id] = make(map[*gtfs.Frequency]string)
+							}
+							feed.FrequenciesAddFlds[k][trip.Id][&freq] = v
+						}
+					}
+				}
+				trip.Frequencies = &freqs
+			}
+
+			if old.Attributions != nil {
+				attrs := make([]*gtfs.Attribution, 0, len(*old.Attributions))
+				for _, a := range *old.Attributions {
+					attr := *a
+					if len(attr.Id) > 0 {
+						attr.Id = freeId(a.Id+":", func(id string) bool { return attrIds[id] })
+						attrIds[attr.Id] = true
+					}
+					attrs = append(attrs, &attr)
+
+					for k := range feed.AttributionsAddFlds {
+						if v, ok := feed.AttributionsAddFlds[k][a]; ok {
+							feed.AttributionsAddFlds[k][&attr] = v
+						}
+					}
+				}
+				trip.Attributions = &attrs
+			}
+		}
+	}
+
+	targets := func(t *gtfs.Trip) []*gtfs.Trip {
+		if ts, ok := copies[t]; ok {
+			return ts
+		}
+		return []*gtfs.Trip{t}
+	}
+
+	tks := make([]gtfs.TransferKey, 0)
+	for tk := range feed.Transfers {
+		_, from := copies[tk.From_trip]
+		_, to := copies[tk.To_trip]
+		if from || to {
+			tks = append(tks, tk)
+		}
+	}
+
+	for _, tk := range tks {
+		val := feed.Transfers[tk]
+		addFlds := make(map[string]string)
+		for k := range feed.TransfersAddFlds {
+			if v, ok := feed.TransfersAddFlds[k][tk]; ok {
+				addFlds[k] = v
+			}
+		}
+
+		feed.DeleteTransfer(tk)
+
+		for _, from := range targets(tk.From_trip) {
+			for _, to := range targets(tk.To_trip) {
+				newTk := tk
+				newTk.From_trip = from
+				newTk.To_trip = to
+				feed.Transfers[newTk] = val
+				for k, v := range addFlds {
+					feed.TransfersAddFlds[k][newTk] = v
+				}
+			}
+		}
+	}
+}
+
+// attributionIds returns all attribution ids used in the feed
+func attributionIds(feed *gtfsparser.Feed) map[string]bool {
+	ids := make(map[string]bool)
+	add := func(attrs []*gtfs.Attribution) {
+		for _, a := range attrs {
+			ids[a.Id] = true
+		}
+	}
+
+	add(feed.Attributions)
+	for _, a := range feed.Agencies {
+		add(a.Attributions)
+	}
+	for _, r := range feed.Routes {
+		add(r.Attributions)
+	}
+	for _, t := range feed.Trips {
+		if t.Attributions != nil {
+			add(*t.Attributions)
+		}
+	}
+
+	return ids
+}
+
+// freeId returns an id with the given prefix that is not yet used
+func freeId(prefix string, used func(string) bool) string {
+	for i := 2; ; i++ {
+		id := prefix + strconv.Itoa(i)
+		if !used(id) {
+			return id
+		}
+	}
+}
-- 
2.43.0


From d92476d7392024fa180dd519c2a12c03eb27fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 16/42] fix: keep parents of kept stops, and delete pathways of
 deleted stops, when completing filtered trips

---
 processors/completegeotripsfilter.go | 12 +++++-------
 processors/util.go                   | 10 ++++++++++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/processors/completegeotripsfilter.go b/processors/completegeotripsfilter.go
index 2409b0d..2a98b95 100755
--- a/processors/completegeotripsfilter.go
+++ b/processors/completegeotripsfilter.go
@@ -26,9 +26,8 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 		for _, poly := range f.Polygons {
 			if poly.PolyContains(float64(s.Lon), float64(s.Lat)) {
 				filterstops[s] = true
-				usedstops[s] = true
-				if s.Parent_station != nil {
-					usedstops[s.Parent_station] = true
+				for ; s != nil; s = s.Parent_station {
+					usedstops[s] = true
 				}
 				break
 			}
@@ -48,9 +47,8 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 			feed.DeleteTrip(id)
 		} else {
 			for _, st := range t.StopTimes {
-				usedstops[st.Stop()] = true
-				if st.Stop().Parent_station != nil {
-					usedstops[st.Stop().Parent_station] = true
+				for s := st.Stop(); s != nil; s = s.Parent_station {
+					usedstops[s] = true
 				}
 			}
 		}
@@ -76,7 +74,7 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 
 	for _, s := range toDel {
 		for _, p := range pathways[s] {
-			feed.DeletePathway(p.Id)
+			deletePathway(feed, p.Id)
 		}
 
 		feed.DeleteStop(s.Id)
diff --git a/processors/util.go b/processors/util.go
index 6dea816..d6b4e25 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -7,6 +7,7 @@
 package processors
 
 import (
+	"github.com/patrickbr/gtfsparser"
 	gtfs "github.com/patrickbr/gtfsparser/gtfs"
 	"math"
 )
@@ -316,3 +317,12 @@ func boolsToBytes(t []bool) []byte {
 	}
 	return b
 }
+
+// Delete a pathway and its additional fields from a feed
+func deletePathway(feed *gtfsparser.Feed, id string) {
+	delete(feed.Pathways, id)
+
+	for k := range feed.PathwaysAddFlds {
+		delete(feed.PathwaysAddFlds[k], id)
+	}
+}
-- 
2.43.0


From 5a9959c804c5fbeb48e606fca10f936ca2c299c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 17/42] fix: ignore children without position when averaging
 parent positions

---
 processors/parentaverager.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/processors/parentaverager.go b/processors/parentaverager.go
index a00ee93..c90e4ed 100644
--- a/processors/parentaverager.go
+++ b/processors/parentaverager.go
@@ -41,7 +41,13 @@ func (sdr StopParentAverager) Run(feed *gtfsparser.Feed) {
 		avgLat := 0.0
 		avgLon := 0.0
 		tooLarge := false
+		numCoords := 0
 		for _, c := range childs {
+			if !c.HasLatLon() {
+				// generic nodes and boarding areas may have no position
+				continue
+			}
+			numCoords += 1
 			if !tooLarge && haversineApprox(float64(p.Lat), float64(p.Lon), float64(c.Lat), float64(c.Lon)) >= sdr.MaxDist {
 				tooLarge = true
 			}
@@ -49,14 +55,14 @@ func (sdr StopParentAverager) Run(feed *gtfsparser.Feed) {
 			avgLon += float64(c.Lon)
 		}
 
-		avgLat = avgLat / float64(len(childs))
-		avgLon = avgLon / float64(len(childs))
+		avgLat = avgLat / float64(numCoords)
+		avgLon = avgLon / float64(numCoords)
 
 		if tooLarge {
 			allOkay := true
 
 			for _, c := range childs {
-				if haversineApprox(float64(c.Lat), float64(c.Lon), float64(avgLat), float64(avgLon)) >= sdr.MaxDist {
+				if c.HasLatLon() && haversineApprox(float64(c.Lat), float64(c.Lon), float64(avgLat), float64(avgLon)) >= sdr.MaxDist {
 					 allOkay= false
 				}
 			}
-- 
2.43.0


From 1cdc58fb9b5ea4cf642b687dc8c6261eed033714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 18/42] fix: delete unused services without any date left by
 the date filter

---
 gtfstidy.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index cb76a24..6a0f075 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -551,6 +551,16 @@ func main() {
 		fmt.Fprintln(os.Stdout, "\nYou may want to try running gtfstidy with --fix for error fixing / skipping. See --help for details.")
 		os.Exit(1)
 	} else {
+		if !startDate.IsEmpty() || !endDate.IsEmpty() {
+			// delete unused services without any date left, those
+			// used by trips have already been deleted by the parser
+			for id, s := range feed.Services {
+				if s.IsEmpty() && s.Start_date().IsEmpty() && s.End_date().IsEmpty() {
+					delete(feed.Services, id)
+				}
+			}
+		}
+
 		minzers := make([]processors.Processor, 0)
 
 		if *dropTooFast {
-- 
2.43.0


From 4ab248a57d03661c49e6ebf567f92c53166a89f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 19/42] fix: rewrite transfers of merged stops consistently,
 and compare stop URLs by value

---
 processors/stopduplicateremover.go | 26 +++++++++++++++++++++-----
 processors/util.go                 |  6 ++++++
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/processors/stopduplicateremover.go b/processors/stopduplicateremover.go
index 78c90ff..35bd9b8 100755
--- a/processors/stopduplicateremover.go
+++ b/processors/stopduplicateremover.go
@@ -211,13 +211,29 @@ func (sdr StopDuplicateRemover) combineStops(feed *gtfsparser.Feed, stops []*gtf
 				tk_new.To_stop = ref
 			}
 
+			val, ok := feed.Transfers[tk]
+			if !ok {
+				// already moved via the other stop
+				continue
+			}
+
 			if _, ok := feed.Transfers[tk_new]; !ok {
-				feed.Transfers[tk_new] = feed.Transfers[tk]
-				delete(feed.Transfers, tk)
+				feed.Transfers[tk_new] = val
+
+				for k := range feed.TransfersAddFlds {
+					if v, ok := feed.TransfersAddFlds[k][tk]; ok {
+						feed.TransfersAddFlds[k][tk_new] = v
+					}
+				}
 
 				// add new transfer to transfer refs
-				transfers[ref] = append(transfers[ref], tk_new)
+				transfers[tk_new.From_stop] = append(transfers[tk_new.From_stop], tk_new)
+				if tk_new.From_stop != tk_new.To_stop {
+					transfers[tk_new.To_stop] = append(transfers[tk_new.To_stop], tk_new)
+				}
 			}
+
+			feed.DeleteTransfer(tk)
 		}
 
 		for i, p := range pathways[s] {
@@ -394,7 +410,7 @@ func (sdr StopDuplicateRemover) stopEquals(a *gtfs.Stop, b *gtfs.Stop, feed *gtf
 			((distSApprox(a, b) <= sdr.DistThresholdStop/2 && parentsEqual) || a.Name == b.Name) &&
 			a.Desc == b.Desc &&
 			a.Zone_id == b.Zone_id &&
-			(a.Url == b.Url || a.Url == nil || b.Url == nil) &&
+			(urlEquals(a.Url, b.Url) || a.Url == nil || b.Url == nil) &&
 			a.Location_type == b.Location_type &&
 			a.Parent_station == b.Parent_station &&
 			a.Timezone.Equals(b.Timezone) &&
@@ -408,7 +424,7 @@ func (sdr StopDuplicateRemover) stopEquals(a *gtfs.Stop, b *gtfs.Stop, feed *gtf
 		a.Name == b.Name &&
 		a.Desc == b.Desc &&
 		a.Zone_id == b.Zone_id &&
-		a.Url == b.Url &&
+		urlEquals(a.Url, b.Url) &&
 		a.Location_type == b.Location_type &&
 		a.Parent_station == b.Parent_station &&
 		a.Timezone.Equals(b.Timezone) &&
diff --git a/processors/util.go b/processors/util.go
index d6b4e25..5507af6 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -10,6 +10,7 @@ import (
 	"github.com/patrickbr/gtfsparser"
 	gtfs "github.com/patrickbr/gtfsparser/gtfs"
 	"math"
+	"net/url"
 )
 
 var DEG_TO_RAD float64 = 0.017453292519943295769236907684886127134428718885417254560
@@ -326,3 +327,8 @@ func deletePathway(feed *gtfsparser.Feed, id string) {
 		delete(feed.PathwaysAddFlds[k], id)
 	}
 }
+
+// Check if two optional URLs are equal
+func urlEquals(a *url.URL, b *url.URL) bool {
+	return a == b || (a != nil && b != nil && a.String() == b.String())
+}
-- 
2.43.0


From 185bb086863b0a7733e1fe1aca2f8b9ba14ecebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:54 +0000
Subject: [PATCH 20/42] fix: never let measures of leading shape points exceed
 the first given measure

---
 processors/shaperemeasurer.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/processors/shaperemeasurer.go b/processors/shaperemeasurer.go
index dd1508f..5e2530a 100755
--- a/processors/shaperemeasurer.go
+++ b/processors/shaperemeasurer.go
@@ -90,7 +90,11 @@ func (s ShapeRemeasurer) remeasureUnknown(shape *gtfs.Shape, avgMeasure float64)
 
 	for i := 0; i <= len(shape.Points); i++ {
 		if i == len(shape.Points) || shape.Points[i].HasDistanceTraveled() {
-			if lastUMIndex > -1 {
+			if lastUMIndex == 0 && i < len(shape.Points) {
+				// leading points must not exceed the first known measure
+				s.remeasureLeading(i, avgMeasure, shape)
+				lastUMIndex = -1
+			} else if lastUMIndex > -1 {
 				s.remeasureBetween(lastUMIndex, i, avgMeasure, lastM, shape)
 				lastUMIndex = -1
 			}
@@ -154,3 +158,20 @@ func (s ShapeRemeasurer) remeasureBetween(i int, end int, mPUnit float64, lastMe
 		shape.Points[i].Dist_traveled = float32(lastMeasure + (d * mPUnit))
 	}
 }
+
+// Remeasure all points before the first measured point
+func (s ShapeRemeasurer) remeasureLeading(first int, mPUnit float64, shape *gtfs.Shape) {
+	firstM := float64(shape.Points[first].Dist_traveled)
+	d := 0.0
+
+	for i := 1; i <= first; i++ {
+		d = d + distP(&shape.Points[i-1], &shape.Points[i])
+	}
+
+	if d*mPUnit > firstM {
+		// measures are not negative
+		mPUnit = firstM / d
+	}
+
+	s.remeasureBetween(0, first, mPUnit, math.Max(0, firstM-d*mPUnit), shape)
+}
-- 
2.43.0


From 61396b205f500faeb693821dbf2a0329aa64face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 21/42] fix: delete transfers of trips dropped while reading,
 and do not restore an empty agency id among several agencies

---
 gtfstidy.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 6a0f075..aa386d1 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -561,6 +561,9 @@ func main() {
 			}
 		}
 
+		// delete transfers of trips the parser has dropped after reading
+		feed.CleanTransfers()
+
 		minzers := make([]processors.Processor, 0)
 
 		if *dropTooFast {
@@ -774,6 +777,10 @@ func main() {
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
+						if len(oldId) == 0 && len(feed.Agencies) > 1 {
+							// only a single agency may have no id
+							break
+						}
 						if _, ok := feed.Agencies[oldId]; !ok {
 							feed.Agencies[oldId] = s
 							feed.Agencies[oldId].Id = oldId
-- 
2.43.0


From e554a799ed215b95d8da36f0db7efd84916b8162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 22/42] fix: keep dwell times, missing times, attributions,
 transfers and inexact frequencies when creating frequencies

---
 processors/frequencyminizer.go | 70 ++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 4dcfbf0..04a7fe9 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -63,9 +63,35 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 	}
 	tripsBef := len(feed.Trips)
 
+	// trips that cannot be merged with others, but keep their departures: those
+	// with frequencies that have no exact departures, and those that are
+	// individually referenced by transfers or attributions
+	fixed := make(map[*gtfs.Trip]bool)
+	for _, t := range feed.Trips {
+		if t.Attributions != nil && len(*t.Attributions) > 0 {
+			fixed[t] = true
+		}
+		if t.Frequencies != nil {
+			for _, f := range *t.Frequencies {
+				if !f.Exact_times {
+					fixed[t] = true
+				}
+			}
+		}
+	}
+	for tk := range feed.Transfers {
+		fixed[tk.From_trip] = true
+		fixed[tk.To_trip] = true
+	}
+
 	// build a slice of trips for parallel processing
 	tripsSl := make(map[*gtfs.Route]map[*gtfs.Service][]*gtfs.Trip, 0)
 	for _, t := range feed.Trips {
+		if fixed[t] || len(t.StopTimes) == 0 || t.StopTimes[0].Departure_time().Empty() {
+			processed[t] = empty{}
+			continue
+		}
+
 		if _, in := tripsSl[t.Route]; !in {
 			tripsSl[t.Route] = make(map[*gtfs.Service][]*gtfs.Trip, 1)
 		}
@@ -402,7 +428,7 @@ func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, t
 				if t.Id == trip.Id || m.isTimeIndependentEqual(t, trip, feed) {
 					if t.Frequencies == nil || len(*t.Frequencies) == 0 {
 						mutex.Lock()
-						ret.trips = append(ret.trips, tripWrapper{t, t.StopTimes[0].Arrival_time(), false, nil})
+						ret.trips = append(ret.trips, tripWrapper{t, t.StopTimes[0].Departure_time(), false, nil})
 						ret.coveredTrips[t] = empty{}
 						mutex.Unlock()
 					} else {
@@ -450,19 +476,16 @@ func (m FrequencyMinimizer) isTimeIndependentEqual(a *gtfs.Trip, b *gtfs.Trip, f
 }
 
 // Remeasure a trips stop times by taking their relative values and changing the sequence to
-// start with time
+// depart from the first stop at time
 func (m FrequencyMinimizer) remeasureStopTimes(t *gtfs.Trip, time gtfs.Time) {
-	diff := 0
-	curArrDepDiff := 0
-	for i := 0; i < len(t.StopTimes); i++ {
-		curArrDepDiff = t.StopTimes[i].Departure_time().SecondsSinceMidnight() - t.StopTimes[i].Arrival_time().SecondsSinceMidnight()
-		oldArrT := t.StopTimes[i].Arrival_time().SecondsSinceMidnight()
-
-		t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(time.SecondsSinceMidnight() + diff))
-		t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(time.SecondsSinceMidnight() + diff + curArrDepDiff))
+	shift := time.SecondsSinceMidnight() - t.StopTimes[0].Departure_time().SecondsSinceMidnight()
 
-		if i < len(t.StopTimes)-1 {
-			diff += t.StopTimes[i+1].Arrival_time().SecondsSinceMidnight() - oldArrT
+	for i := 0; i < len(t.StopTimes); i++ {
+		if arr := t.StopTimes[i].Arrival_time(); !arr.Empty() {
+			t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(arr.SecondsSinceMidnight() + shift))
+		}
+		if dep := t.StopTimes[i].Departure_time(); !dep.Empty() {
+			t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(dep.SecondsSinceMidnight() + shift))
 		}
 	}
 }
@@ -479,14 +502,19 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 		return true
 	}
 
-	var aPrev *gtfs.StopTime
-	var bPrev *gtfs.StopTime
+	// true if two times are equal relative to the departure at the first stop
+	sameRel := func(at gtfs.Time, bt gtfs.Time) bool {
+		if at.Empty() || bt.Empty() {
+			return at.Empty() && bt.Empty()
+		}
+		return at.Minus(a.StopTimes[0].Departure_time()) == bt.Minus(b.StopTimes[0].Departure_time())
+	}
 
 	for i := range a.StopTimes {
 		addFldsEq := true
 
 		for _, v := range feed.StopTimesAddFlds {
-			if v[a.Id][a.StopTimes[i].Sequence()] != v[b.Id][a.StopTimes[i].Sequence()] {
+			if v[a.Id][a.StopTimes[i].Sequence()] != v[b.Id][b.StopTimes[i].Sequence()] {
 				addFldsEq = false
 				break
 			}
@@ -498,17 +526,9 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 			((math.IsNaN(float64(a.StopTimes[i].Shape_dist_traveled())) && math.IsNaN(float64(b.StopTimes[i].Shape_dist_traveled()))) || FloatEquals(a.StopTimes[i].Shape_dist_traveled(), b.StopTimes[i].Shape_dist_traveled(), 0.01)) && a.StopTimes[i].Timepoint() == b.StopTimes[i].Timepoint()) {
 			return false
 		}
-		if i != 0 {
-			if a.StopTimes[i].Arrival_time().SecondsSinceMidnight()-aPrev.Arrival_time().SecondsSinceMidnight() != b.StopTimes[i].Arrival_time().SecondsSinceMidnight()-bPrev.Arrival_time().SecondsSinceMidnight() {
-				return false
-			}
-			if a.StopTimes[i].Departure_time().SecondsSinceMidnight()-aPrev.Departure_time().SecondsSinceMidnight() != b.StopTimes[i].Departure_time().SecondsSinceMidnight()-bPrev.Departure_time().SecondsSinceMidnight() {
-				return false
-			}
+		if !sameRel(a.StopTimes[i].Arrival_time(), b.StopTimes[i].Arrival_time()) || !sameRel(a.StopTimes[i].Departure_time(), b.StopTimes[i].Departure_time()) {
+			return false
 		}
-
-		aPrev = &a.StopTimes[i]
-		bPrev = &b.StopTimes[i]
 	}
 	return true
 }
-- 
2.43.0


From e2c88b5b94233fc80e8663277bf5615b27ff0004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 23/42] fix: never use a trip for several frequency packs

---
 processors/frequencyminizer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 04a7fe9..3ca4c3b 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -111,7 +111,14 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 		}
 
 		// trips time-independent equal to the current trip
-		eqs := m.getTimeIndependentEquivalentTrips(t, tripsSl[t.Route][t.Service], feed)
+		// (trips that are already part of another pack must not be used twice)
+		unprocessed := make([]*gtfs.Trip, 0)
+		for _, o := range tripsSl[t.Route][t.Service] {
+			if _, contained := processed[o]; !contained {
+				unprocessed = append(unprocessed, o)
+			}
+		}
+		eqs := m.getTimeIndependentEquivalentTrips(t, unprocessed, feed)
 		for _, t := range eqs.trips {
 			processed[t.Trip] = empty{}
 		}
-- 
2.43.0


From a5177b5ec972c17a5c60dfb8003d83e972904a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 24/42] fix: do not crash comparing trips of services that are
 never active

---
 processors/tripduplicateremover.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/processors/tripduplicateremover.go b/processors/tripduplicateremover.go
index 8cb8c17..3757f78 100755
--- a/processors/tripduplicateremover.go
+++ b/processors/tripduplicateremover.go
@@ -465,10 +465,6 @@ func (m *TripDuplicateRemover) tripCalEq(a *gtfs.Trip, b *gtfs.Trip) bool {
 		return false
 	}
 
-	if aDList[len(aDList)-1] != bDList[len(bDList)-1] {
-		return false
-	}
-
 	for i, v := range aDList {
 		if v != bDList[i] {
 			return false
-- 
2.43.0


From 79a895680b5bbcfd35752ba55a7487dada273c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 25/42] fix: keep transfers between stations of used stops, and
 delete three-level stop hierarchies, when removing orphans

---
 processors/orphanminimizer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/processors/orphanminimizer.go b/processors/orphanminimizer.go
index 997f838..fad58ca 100755
--- a/processors/orphanminimizer.go
+++ b/processors/orphanminimizer.go
@@ -35,7 +35,9 @@ func (or OrphanRemover) Run(feed *gtfsparser.Feed) {
 
 	or.removeStopOrphans(feed)
 
-	// do this 2 times, because stop deletion can create new stop orphans (parent_station)
+	// do this 3 times, because stop deletion can create new stop orphans (parent_station),
+	// and boarding areas have platforms as parents, which have stations as parents
+	or.removeStopOrphans(feed)
 	or.removeStopOrphans(feed)
 
 	or.removeShapeOrphans(feed)
@@ -73,7 +75,10 @@ func (or OrphanRemover) removeTransferOrphans(feed *gtfsparser.Feed) {
 	for _, t := range feed.Trips {
 		referenced_routes[t.Route] = empty{}
 		for _, st := range t.StopTimes {
-			referenced[st.Stop()] = empty{}
+			// a transfer of a station is a transfer of all of its stops
+			for s := st.Stop(); s != nil; s = s.Parent_station {
+				referenced[s] = empty{}
+			}
 		}
 	}
 
@@ -98,7 +103,7 @@ func (or OrphanRemover) removeTransferOrphans(feed *gtfsparser.Feed) {
 		}
 
 		if tk.To_route != nil {
-			_, inFromRoute = referenced_routes[tk.To_route]
+			_, inToRoute = referenced_routes[tk.To_route]
 		}
 
 		if inFrom && inTo && inFromRoute && inToRoute {
-- 
2.43.0


From 02c9fcad1d2325bdb5828b6166f5c0b32d437029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 26/42] fix: move transfers of merged routes to the surviving
 route

---
 processors/routeduplicateremover.go | 45 +++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/processors/routeduplicateremover.go b/processors/routeduplicateremover.go
index 634690e..5c08583 100755
--- a/processors/routeduplicateremover.go
+++ b/processors/routeduplicateremover.go
@@ -27,6 +27,7 @@ func (rdr RouteDuplicateRemover) Run(feed *gtfsparser.Feed) {
 	bef := len(feed.Routes)
 
 	trips := make(map[*gtfs.Route][]*gtfs.Trip, len(feed.Routes))
+	merged := make(map[*gtfs.Route]*gtfs.Route)
 
 	for _, t := range feed.Trips {
 		trips[t.Route] = append(trips[t.Route], t)
@@ -45,7 +46,7 @@ func (rdr RouteDuplicateRemover) Run(feed *gtfsparser.Feed) {
 		eqRoutes := rdr.getEquivalentRoutes(r, feed, chunks[hash])
 
 		if len(eqRoutes) > 0 {
-			rdr.combineRoutes(feed, append(eqRoutes, r), trips)
+			rdr.combineRoutes(feed, append(eqRoutes, r), trips, merged)
 
 			for _, r := range eqRoutes {
 				proced[r] = true
@@ -55,6 +56,8 @@ func (rdr RouteDuplicateRemover) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	rdr.moveTransfers(feed, merged)
+
 	// delete transfers
 	feed.CleanTransfers()
 
@@ -166,7 +169,7 @@ func (rdr RouteDuplicateRemover) fareRulesEqual(attr *gtfs.FareAttribute, a *gtf
 }
 
 // Combine a slice of equal routes into a single route
-func (rdr RouteDuplicateRemover) combineRoutes(feed *gtfsparser.Feed, routes []*gtfs.Route, trips map[*gtfs.Route][]*gtfs.Trip) {
+func (rdr RouteDuplicateRemover) combineRoutes(feed *gtfsparser.Feed, routes []*gtfs.Route, trips map[*gtfs.Route][]*gtfs.Trip, merged map[*gtfs.Route]*gtfs.Route) {
 	// heuristic: use the route with the shortest ID as 'reference'
 	ref := routes[0]
 
@@ -212,6 +215,44 @@ func (rdr RouteDuplicateRemover) combineRoutes(feed *gtfsparser.Feed, routes []*
 		}
 
 		feed.DeleteRoute(r.Id)
+		merged[r] = ref
+	}
+}
+
+// Move the transfers of merged routes to the route they were merged into
+func (rdr RouteDuplicateRemover) moveTransfers(feed *gtfsparser.Feed, merged map[*gtfs.Route]*gtfs.Route) {
+	keys := make([]gtfs.TransferKey, 0, len(feed.Transfers))
+
+	for tk := range feed.Transfers {
+		keys = append(keys, tk)
+	}
+
+	for _, tk := range keys {
+		tkNew := tk
+
+		if ref, ok := merged[tk.From_route]; ok {
+			tkNew.From_route = ref
+		}
+
+		if ref, ok := merged[tk.To_route]; ok {
+			tkNew.To_route = ref
+		}
+
+		if tkNew == tk {
+			continue
+		}
+
+		if _, ok := feed.Transfers[tkNew]; !ok {
+			feed.Transfers[tkNew] = feed.Transfers[tk]
+
+			for k := range feed.TransfersAddFlds {
+				if v, ok := feed.TransfersAddFlds[k][tk]; ok {
+					feed.TransfersAddFlds[k][tkNew] = v
+				}
+			}
+		}
+
+		feed.DeleteTransfer(tk)
 	}
 }
 
-- 
2.43.0


From ea4c7cff3428640b724d69ead99c3fe0e9eac48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:43 +0000
Subject: [PATCH 27/42] fix: correct the documented expansions of --compress,
 --Compress, --merge and --Merge

---
 gtfstidy.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index aa386d1..984a604 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -136,10 +136,10 @@ func main() {
 	endDateFilter := flag.StringP("date-end", "", "", "end date filter, as YYYYMMDD")
 
 	fixShortHand := flag.BoolP("fix", "", false, "shorthand for -eDnz -p '-'")
-	compressShortHand := flag.BoolP("compress", "", false, "shorthand for -OSRCcIAP")
-	minimizeShortHand := flag.BoolP("Compress", "", false, "shorthand for -OSRCcIAPdT --red-stops-fuzzy --red-trips-fuzzy, like --compress, but additionally compress stop times into frequencies, use fuzzy matching for redundant trip and stop removal and use dense character ids. The latter destroys any existing external references (like in GTFS realtime streams)")
-	mergeShortHand := flag.BoolP("merge", "", false, "shorthand for -ARPICO")
-	fuzzyMergeShortHand := flag.BoolP("Merge", "", false, "shorthand for -EARPICO --red-trips-fuzzy --red-stops-fuzzy")
+	compressShortHand := flag.BoolP("compress", "", false, "shorthand for -OsSRCcIAP")
+	minimizeShortHand := flag.BoolP("Compress", "", false, "shorthand for -OsSRCcIAPdT --red-stops-fuzzy --red-trips-fuzzy, like --compress, but additionally compress stop times into frequencies, use fuzzy matching for redundant trip and stop removal and use dense character ids. The latter destroys any existing external references (like in GTFS realtime streams)")
+	mergeShortHand := flag.BoolP("merge", "", false, "shorthand for -ARPICcO")
+	fuzzyMergeShortHand := flag.BoolP("Merge", "", false, "shorthand for -EARPICcO --red-trips-fuzzy --red-stops-fuzzy")
 
 	assumeCleanCsv := flag.BoolP("assume-clean-csv", "", false, "assume clean csv (no leading spaces, clean line breaks)")
 	useDefaultValuesOnError := flag.BoolP("default-on-errs", "e", false, "if non-required fields have errors, fall back to the default values")
-- 
2.43.0


From ad9be29985dfe7bc554c3bef5878810133978724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:16 +0000
Subject: [PATCH 28/42] fix: do not turn empty zones of fare rules into the ID
 prefix

---
 gtfstidy.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 984a604..5fbd5b2 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -561,6 +561,17 @@ func main() {
 			}
 		}
 
+		// the parser also prefixes empty zone IDs of fare rules
+		for _, fa := range feed.FareAttributes {
+			for _, r := range fa.Rules {
+				for _, zone := range []*string{&r.Origin_id, &r.Destination_id, &r.Contains_id} {
+					if prefixes[*zone] {
+						*zone = ""
+					}
+				}
+			}
+		}
+
 		// delete transfers of trips the parser has dropped after reading
 		feed.CleanTransfers()
 
-- 
2.43.0


From 1b5fec933fdaa3cbc286f18268ea7bc405e72dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:05 +0000
Subject: [PATCH 29/42] fix: group adjacent stop times only if they agree, with
 the drop off type of the first and the pickup type of the last one

---
 processors/adjstoptimegrouper.go | 42 ++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/processors/adjstoptimegrouper.go b/processors/adjstoptimegrouper.go
index 340b7c1..c185ba0 100644
--- a/processors/adjstoptimegrouper.go
+++ b/processors/adjstoptimegrouper.go
@@ -31,12 +31,9 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 
 		for i := 1; i < len(t.StopTimes);i++ {
 			total++
-			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].HasDistanceTraveled() == t.StopTimes[i].HasDistanceTraveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
-
+			if m.groupable(&t.StopTimes[i-1], &t.StopTimes[i]) {
 				// update previous stop
-				newSt[len(newSt) - 1].SetDeparture_time(t.StopTimes[i].Departure_time())
-				newSt[len(newSt) - 1].SetDrop_off_type(t.StopTimes[i-1].Drop_off_type())
-				newSt[len(newSt) - 1].SetPickup_type(t.StopTimes[i].Pickup_type())
+				m.extend(&newSt[len(newSt)-1], &t.StopTimes[i])
 				grouped++
 			} else {
 				newSt = append(newSt, t.StopTimes[i])
@@ -50,3 +47,38 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 	grouped,
 	100.0*float64(grouped)/(float64(total)))
 }
+
+// Check if two adjacent stop times can be grouped
+func (m AdjacentStopTimeGrouper) groupable(a *gtfs.StopTime, b *gtfs.StopTime) bool {
+	if a.Stop() != b.Stop() || a.Headsign() != b.Headsign() || a.Timepoint() != b.Timepoint() {
+		return false
+	}
+
+	if a.Continuous_pickup() != b.Continuous_pickup() || a.Continuous_drop_off() != b.Continuous_drop_off() {
+		return false
+	}
+
+	if a.HasDistanceTraveled() != b.HasDistanceTraveled() || (a.HasDistanceTraveled() && a.Shape_dist_traveled() != b.Shape_dist_traveled()) {
+		return false
+	}
+
+	return a.Arrival_time().Equals(a.Departure_time()) && b.Arrival_time().Equals(b.Departure_time()) && a.Arrival_time().Empty() == b.Arrival_time().Empty()
+}
+
+// Let stop time a end with the departure of the subsequent stop time b
+func (m AdjacentStopTimeGrouper) extend(a *gtfs.StopTime, b *gtfs.StopTime) {
+	// the setters can not reset pickup and drop off types, start from scratch
+	st := gtfs.StopTime{}
+	st.SetStop(a.Stop())
+	st.SetHeadsign(a.Headsign())
+	st.SetSequence(a.Sequence())
+	st.SetTimepoint(a.Timepoint())
+	st.SetShape_dist_traveled(a.Shape_dist_traveled())
+	st.SetArrival_time(a.Arrival_time())
+	st.SetDeparture_time(b.Departure_time())
+	st.SetDrop_off_type(a.Drop_off_type())
+	st.SetPickup_type(b.Pickup_type())
+	st.SetContinuous_pickup(a.Continuous_pickup())
+	st.SetContinuous_drop_off(a.Continuous_drop_off())
+	*a = st
+}
-- 
2.43.0


From c5a437196a82f86a52552e7cbf3c3e2204f8168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:45 +0000
Subject: [PATCH 30/42] fix: check the speed of trips from their first stop on
 and do not mistake missing times for times

---
 processors/toofasttripremover.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/processors/toofasttripremover.go b/processors/toofasttripremover.go
index 13c0c78..fcf381c 100644
--- a/processors/toofasttripremover.go
+++ b/processors/toofasttripremover.go
@@ -34,6 +34,17 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 		for i := 1; i < len(t.StopTimes); i++ {
 			dist += distSApprox(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
 
+			// calls without times cannot be checked
+			if t.StopTimes[i].Arrival_time().Empty() {
+				continue
+			}
+
+			if last.Departure_time().Empty() {
+				last = t.StopTimes[i]
+				dist = 0
+				continue
+			}
+
 			inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - last.Departure_time().SecondsSinceMidnight()
 
 			speed := 0.0
@@ -99,11 +110,19 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 			continue
 		}
 
-		for j := 1; j < len(t.StopTimes); j++ {
+		for j := 0; j < len(t.StopTimes); j++ {
+			if t.StopTimes[j].Departure_time().Empty() {
+				continue
+			}
+
 			dist := 0.0
 			for i := j + 1; i < len(t.StopTimes); i++ {
 				dist += distSApprox(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
 
+				if t.StopTimes[i].Arrival_time().Empty() {
+					continue
+				}
+
 				inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - t.StopTimes[j].Departure_time().SecondsSinceMidnight()
 
 				speed := 0.0
-- 
2.43.0


From 334f4d42950531d3fa5f59ab8037e25ed453d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:22 +0000
Subject: [PATCH 31/42] fix: --drop-platform-for-parentless does not merge
 stops unless asked to

---
 gtfstidy.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 5fbd5b2..9d445b7 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -619,11 +619,13 @@ func main() {
 			minzers = append(minzers, processors.PlatformCodeDropper{})
 
 			// remove redundant stops again
-			minzers = append(minzers, processors.StopDuplicateRemover{
-				DistThresholdStop:    5.0,
-				DistThresholdStation: 50,
-				Fuzzy:                *useRedStopsMinimizerFuzzy,
-			})
+			if *useRedStopMinimizer {
+				minzers = append(minzers, processors.StopDuplicateRemover{
+					DistThresholdStop:    5.0,
+					DistThresholdStation: 50,
+					Fuzzy:                *useRedStopsMinimizerFuzzy,
+				})
+			}
 		}
 
 		if *useShapeRemeasurer || *useShapeMinimizer || *useRedShapeRemover || *useStopTimeRemeasurer {
-- 
2.43.0


From 8790edf60e01a782c52b6aaf20bd98ade6e7ba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:31 +0000
Subject: [PATCH 32/42] fix: move far away parents independently of the order
 of stops

---
 processors/parentaverager.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/processors/parentaverager.go b/processors/parentaverager.go
index c90e4ed..dc7f650 100644
--- a/processors/parentaverager.go
+++ b/processors/parentaverager.go
@@ -37,6 +37,9 @@ func (sdr StopParentAverager) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	// parents may be childs of other parents, don't move them before all are checked
+	newPos := make(map[*gtfs.Stop][2]float32)
+
 	for p, childs := range parentChilds {
 		avgLat := 0.0
 		avgLon := 0.0
@@ -68,8 +71,7 @@ func (sdr StopParentAverager) Run(feed *gtfsparser.Feed) {
 			}
 
 			if allOkay {
-				p.Lat = float32(avgLat)
-				p.Lon = float32(avgLon)
+				newPos[p] = [2]float32{float32(avgLat), float32(avgLon)}
 				fixed +=1;
 			} else {
 				remain +=1;
@@ -77,5 +79,10 @@ func (sdr StopParentAverager) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	for p, pos := range newPos {
+		p.Lat = pos[0]
+		p.Lon = pos[1]
+	}
+
 	fmt.Fprintf(os.Stdout, "done. (%d stations fixed, %d stations remain)\n", fixed, remain)
 }
-- 
2.43.0


From 7ef3f7b6421230fe877cbc361d354a553a060d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:31 +0000
Subject: [PATCH 33/42] fix: update the priority of clusters whose neighbors
 changed when reclustering stops

---
 processors/stopreclusterer.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 08f6e6d..0725335 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -183,9 +183,11 @@ func (m StopReclusterer) Run(feed *gtfsparser.Feed) {
 
 			if len(neighs[top.value]) != 0 {
 				top.priority = neighs[top.value][len(neighs[top.value])-1].simi
-				heap.Push(&pq, top)
-				continue
+			} else {
+				top.priority = 0
 			}
+			heap.Push(&pq, top)
+			continue
 		}
 
 		// merge clusters
@@ -381,8 +383,6 @@ func (m *StopReclusterer) updateNeighIn(cId int, nId int, clusters []*StopCluste
 		return
 	}
 
-	oldbestsimi := neighs[cId][len(neighs[cId])-1].simi
-
 	for i, neigh := range neighs[cId] {
 		if neigh.id == nId {
 			neighs[cId][i].simi = m.clusterSimi(clusters[cId], clusters[nId])
@@ -394,11 +394,9 @@ func (m *StopReclusterer) updateNeighIn(cId int, nId int, clusters []*StopCluste
 				sort.Sort(BySimi(neighs[cId]))
 			}
 
-			// we only have to update the PQ if the highest simi neighbor has changed
-			// this is the case if the new simi is bigger, or if we have changed the last element and it is now
-			// smaller
-			if neigh.simi > oldbestsimi || (i == len(neighs[cId])-1 && neigh.simi < oldbestsimi) {
-				pq.Items[pq.Pqids[cId]].priority = neighs[cId][len(neighs[cId])-1].simi
+			// we only have to update the PQ if the highest simi has changed
+			if best := neighs[cId][len(neighs[cId])-1].simi; best != pq.Items[pq.Pqids[cId]].priority {
+				pq.Items[pq.Pqids[cId]].priority = best
 				heap.Fix(pq, pq.Pqids[cId])
 			}
 			return
-- 
2.43.0


From 6e9c9b6f7370f24d7f90ac0b568c028478e10a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:42 +0000
Subject: [PATCH 34/42] fix: snap stops by their measure on every segment, and
 to shapes with a single point

---
 processors/shapesnapper.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index 33b7f26..c454b59 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -88,19 +88,21 @@ func (sm ShapeSnapper) Run(feed *gtfsparser.Feed) {
 func (sm *ShapeSnapper) snapTo(stop *gtfs.Stop, distT float32, shape *gtfs.Shape) (float64, float64) {
 	shp := sm.mercs[shape]
 
-	if float64(distT) != math.NaN() {
-		for i := 1; i < len(shape.Points); i++ {
-			if shape.Points[i].Dist_traveled <= distT && i < len(shape.Points) - 1 && shape.Points[i+1].Dist_traveled >= distT {
-				d := (distT - shape.Points[i].Dist_traveled) / (shape.Points[i + 1].Dist_traveled - shape.Points[i].Dist_traveled)
+	for i := 0; i < len(shape.Points)-1; i++ {
+		// comparisons with missing measures are always false
+		if shape.Points[i].Dist_traveled <= distT && shape.Points[i+1].Dist_traveled >= distT {
+			d := float32(0)
+			if shape.Points[i+1].Dist_traveled > shape.Points[i].Dist_traveled {
+				d = (distT - shape.Points[i].Dist_traveled) / (shape.Points[i+1].Dist_traveled - shape.Points[i].Dist_traveled)
+			}
 
-				dx := shp[i+1][0] - shp[i][0]
-				dy := shp[i+1][1] - shp[i][1]
+			dx := shp[i+1][0] - shp[i][0]
+			dy := shp[i+1][1] - shp[i][1]
 
-				x := shp[i][0] + dx*float64(d)
-				y := shp[i][1] + dy*float64(d)
+			x := shp[i][0] + dx*float64(d)
+			y := shp[i][1] + dy*float64(d)
 
-				return x, y
-			}
+			return x, y
 		}
 	}
 
@@ -111,6 +113,10 @@ func (sm *ShapeSnapper) snapTo(stop *gtfs.Stop, distT float32, shape *gtfs.Shape
 	px := sm.stopMercs[stop][0]
 	py := sm.stopMercs[stop][1]
 
+	if len(shp) == 1 {
+		return shp[0][0], shp[0][1]
+	}
+
 	for i := 1; i < len(shp); i++ {
 		sx, sy := snapTo(px, py, shp[i-1][0], shp[i-1][1], shp[i][0], shp[i][1])
 		dist := dist(px, py, sx, sy)
-- 
2.43.0


From b573580279e3c7051029bd6cdbbbfd7b7eacfcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:42 +0000
Subject: [PATCH 35/42] fix: do not duplicate the point of a shape with a
 single point

---
 processors/shapeminimizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/processors/shapeminimizer.go b/processors/shapeminimizer.go
index 2e342c0..b967d26 100755
--- a/processors/shapeminimizer.go
+++ b/processors/shapeminimizer.go
@@ -71,6 +71,10 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 
 // Minimize a single shape using the Douglas-Peucker algorithm
 func (sm *ShapeMinimizer) minimizeShape(points gtfs.ShapePoints, e float64) gtfs.ShapePoints {
+	if len(points) < 2 {
+		return points
+	}
+
 	var maxD float64
 	var maxI int
 
-- 
2.43.0


From 3ece4d9ef1fb61f943269a1ed2be2710a455b95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:42 +0000
Subject: [PATCH 36/42] fix: index all segments of shapes, also on the upper
 border and for shapes without extent

---
 processors/shapeidx.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/processors/shapeidx.go b/processors/shapeidx.go
index 19c7843..85a5fe4 100755
--- a/processors/shapeidx.go
+++ b/processors/shapeidx.go
@@ -37,13 +37,15 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 			x, y := p[0], p[1]
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -60,8 +62,9 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 		return &idx
 	}
 
-	idx.xWidth = uint(math.Ceil(idx.width / idx.cellWidth))
-	idx.yHeight = uint(math.Ceil(idx.height / idx.cellHeight))
+	// points on the upper border are in the last cell
+	idx.xWidth = uint(math.Floor(idx.width/idx.cellWidth)) + 1
+	idx.yHeight = uint(math.Floor(idx.height/idx.cellHeight)) + 1
 
 	// resize rows
 	idx.grid = make([][]map[*gtfs.Shape]bool, idx.xWidth)
@@ -81,7 +84,7 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 func (gi *ShapeIdx) Add(origShp *gtfs.Shape, shp [][]float64) {
 	for i := 1; i < len(shp); i++ {
 		ax, ay := shp[i-1][0], shp[i-1][1]
-		bx, by := shp[i][0], shp[0][1]
+		bx, by := shp[i][0], shp[i][1]
 		llx := math.Min(ax, bx)
 		lly := math.Min(ay, by)
 		urx := math.Max(ax, bx)
-- 
2.43.0


From d099adcf05ec8d845100401b07e15cb028a592f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 37/42] fix: always merge shapes with identical points, also if
 they touch themselves

---
 processors/shapeduplicateremover.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/processors/shapeduplicateremover.go b/processors/shapeduplicateremover.go
index 2ee70b6..68e2a26 100755
--- a/processors/shapeduplicateremover.go
+++ b/processors/shapeduplicateremover.go
@@ -92,7 +92,7 @@ func (sdr *ShapeDuplicateRemover) getEquShps(shp *gtfs.Shape, feed *gtfsparser.F
 			neighs := idx.GetNeighbors(sdr.mercs[shp], sdr.MaxEqDist)
 
 			for s := range neighs {
-				if s != shp && !sdr.deleted[s] && sdr.inDistTo(s, shp) && sdr.inDistTo(shp, s) {
+				if s != shp && !sdr.deleted[s] && (sdr.samePoints(s, shp) || (sdr.inDistTo(s, shp) && sdr.inDistTo(shp, s))) {
 					rets[j] = append(rets[j], s)
 				}
 			}
@@ -115,6 +115,23 @@ func (sdr *ShapeDuplicateRemover) getEquShps(shp *gtfs.Shape, feed *gtfsparser.F
 	return ret
 }
 
+// True if both shapes consist of the same points with the same measurements. The heuristic distance check may
+// miss this for shapes that touch themselves, because it only searches for the nearest segment.
+func (sdr *ShapeDuplicateRemover) samePoints(shpA, shpB *gtfs.Shape) bool {
+	if len(shpA.Points) != len(shpB.Points) {
+		return false
+	}
+
+	for i := range shpA.Points {
+		a, b := &shpA.Points[i], &shpB.Points[i]
+		if a.Lat != b.Lat || a.Lon != b.Lon || a.HasDistanceTraveled() != b.HasDistanceTraveled() || (a.HasDistanceTraveled() && a.Dist_traveled != b.Dist_traveled) {
+			return false
+		}
+	}
+
+	return true
+}
+
 // True if shape b is in distance maxD to shape b
 func (sdr *ShapeDuplicateRemover) inDistTo(shpA, shpB *gtfs.Shape) bool {
 	a := sdr.mercs[shpA]
-- 
2.43.0


From 1c721cd052f0ff16c0a637d1942f6dcc597eb716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:00 +0000
Subject: [PATCH 38/42] fix: keep remeasured stop times on their shape segment
 in spite of rounding

---
 processors/stoptimeremeasurer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/processors/stoptimeremeasurer.go b/processors/stoptimeremeasurer.go
index 1c7e45b..b46141f 100644
--- a/processors/stoptimeremeasurer.go
+++ b/processors/stoptimeremeasurer.go
@@ -365,6 +365,10 @@ func (s *StopTimeRemeasurer) remeasure(trip *gtfs.Trip) bool {
 		c := cands[i][chosen]
 
 		newDist := trip.Shape.Points[c.Seg].Dist_traveled + float32(float64(trip.Shape.Points[c.Seg + 1].Dist_traveled - trip.Shape.Points[c.Seg].Dist_traveled) * c.Progr)
+		if newDist > trip.Shape.Points[c.Seg + 1].Dist_traveled {
+			// rounding must not lead beyond the end of the segment
+			newDist = trip.Shape.Points[c.Seg + 1].Dist_traveled
+		}
 		trip.StopTimes[i].SetShape_dist_traveled(newDist)
 
 		// if i != len(trip.StopTimes) -1 && trip.StopTimes[i].Shape_dist_traveled() > trip.StopTimes[i+1].Shape_dist_traveled() {
-- 
2.43.0


From 4dabc45ad918aa02e42a96bc7eee0532f786d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:42 +0000
Subject: [PATCH 39/42] fix: move additional fields of shape points to their
 new sequence numbers after minimizing

---
 processors/shapeminimizer.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/processors/shapeminimizer.go b/processors/shapeminimizer.go
index b967d26..6cdd417 100755
--- a/processors/shapeminimizer.go
+++ b/processors/shapeminimizer.go
@@ -42,6 +42,7 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 				bef := len(s.Points)
 				chunknum[a] += len(s.Points)
 				s.Points = sm.minimizeShape(s.Points, sm.Epsilon)
+				sm.moveAddFlds(feed, s)
 				for i := 0; i < len(s.Points); i++ {
 					s.Points[i].Sequence = uint32(i)
 				}
@@ -69,6 +70,27 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 		100.0*float64(n)/(float64(orign)+0.001))
 }
 
+// Move the additional fields of the remaining points to their new sequence numbers
+func (sm *ShapeMinimizer) moveAddFlds(feed *gtfsparser.Feed, s *gtfs.Shape) {
+	for _, shapeVals := range feed.ShapesAddFlds {
+		// note: only the values of this shape are changed, other shapes
+		// may be processed in parallel
+		vals := shapeVals[s.Id]
+		newVals := make(map[int]string, len(s.Points))
+		for i, p := range s.Points {
+			if val, ok := vals[int(p.Sequence)]; ok {
+				newVals[i] = val
+			}
+		}
+		for seq := range vals {
+			delete(vals, seq)
+		}
+		for seq, val := range newVals {
+			vals[seq] = val
+		}
+	}
+}
+
 // Minimize a single shape using the Douglas-Peucker algorithm
 func (sm *ShapeMinimizer) minimizeShape(points gtfs.ShapePoints, e float64) gtfs.ShapePoints {
 	if len(points) < 2 {
-- 
2.43.0


From f0a8695391f1f63b823c6e157294986e4848099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:42 +0000
Subject: [PATCH 40/42] fix: keep additional fields of stops copied while
 snapping to shapes

---
 processors/shapesnapper.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index c454b59..899e5a5 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -74,6 +74,13 @@ func (sm ShapeSnapper) Run(feed *gtfsparser.Feed) {
 					Timezone:            st.Stop().Timezone,
 				}
 
+				// the copy also keeps the additional fields
+				for _, vals := range feed.StopsAddFlds {
+					if val, ok := vals[st.Stop().Id]; ok {
+						vals[newId] = val
+					}
+				}
+
 				feed.Stops[newId] = &newStop
 				t.StopTimes[i].SetStop(&newStop)
 			}
-- 
2.43.0


From 1ce7e310e7f9e48fe46a415a5080bfcf7ebea5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 41/42] fix: validate feeds without dry run

In a dry run the parser keeps no services, so that -v missed exceptions
defined twice and failed on valid feeds if a date filter was given.
---
 gtfstidy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 9d445b7..4b483ea 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -433,7 +433,7 @@ func main() {
 	}
 
 	feed := gtfsparser.NewFeed()
-	opts := gtfsparser.ParseOptions{UseDefValueOnError: false, DropErroneous: false, DryRun: *onlyValidate, CheckNullCoordinates: false, EmptyStringRepl: "", ZipFix: false, UseStandardRouteTypes: *useStandardRouteTypes, MOTFilter: motFilter, MOTFilterNeg: motFilterNeg, AssumeCleanCsv: *assumeCleanCsv, RemoveFillers: *removeFillers, UseGoogleSupportedRouteTypes: *useGoogleSupportedRouteTypes, DropSingleStopTrips: *dropSingleStopTrips}
+	opts := gtfsparser.ParseOptions{UseDefValueOnError: false, DropErroneous: false, DryRun: false, CheckNullCoordinates: false, EmptyStringRepl: "", ZipFix: false, UseStandardRouteTypes: *useStandardRouteTypes, MOTFilter: motFilter, MOTFilterNeg: motFilterNeg, AssumeCleanCsv: *assumeCleanCsv, RemoveFillers: *removeFillers, UseGoogleSupportedRouteTypes: *useGoogleSupportedRouteTypes, DropSingleStopTrips: *dropSingleStopTrips}
 	opts.DropErroneous = *dropErroneousEntities && !*onlyValidate
 	opts.UseDefValueOnError = *useDefaultValuesOnError && !*onlyValidate
 	opts.CheckNullCoordinates = *checkNullCoords
-- 
2.43.0


From 298d864080fc5e141c3798ec65c810a07d13546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 42/42] fix: minimizing services missed better coverages if the
 daymap is in effect only in part of the range

---
 processors/serviceminimizer.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/processors/serviceminimizer.go b/processors/serviceminimizer.go
index 590bccc..626cbac 100755
--- a/processors/serviceminimizer.go
+++ b/processors/serviceminimizer.go
@@ -151,10 +151,24 @@ func (sm ServiceMinimizer) perfectMinimize(service *gtfs.Service) {
 	startDiff := int(startTimeAm.Sub(startTime).Hours() / 24)
 	endDiff := int(startTimeAm.Sub(endTime).Hours() / 24)
 
+	calStart := int(service.Start_date().GetTime().Sub(startTimeAm).Hours() / 24)
+	calEnd := int(service.End_date().GetTime().Sub(startTimeAm).Hours() / 24)
+
 out:
 	for a := 0; a < l; a = a + 7 {
 		for b := l - 1; b > a; b = b - 7 {
-			fullWeekCoverage := ((b - a) - 7) / 7
+			// full weeks in [a, b] during which the daymap is in effect
+			calA, calB := a, b
+			if calStart > calA {
+				calA = calStart
+			}
+			if calEnd < calB {
+				calB = calEnd
+			}
+			fullWeekCoverage := 0
+			if calB > calA {
+				fullWeekCoverage = (calB - calA + 1) / 7
+			}
 			for d := uint(1); d < 128; d++ {
 				minExc := fullWeekCoverage*daysNotMatched[d] - len(service.Exceptions())
 
-- 
2.43.0

