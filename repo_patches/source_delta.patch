From aef09f4327efe39d0a1b207dbc71d0899adacc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 01/29] fix: never put a ticket created or expired during the
 snapshot into pools

---
 core/main.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/main.go b/core/main.go
index f603ef2..a2a38f4 100644
--- a/core/main.go
+++ b/core/main.go
@@ -945,13 +945,17 @@ func syncMapDump(sm *sync.Map) map[string]interface{} {
 // two sets, as they are still being updated asynchronously in a number of
 // other goroutines. The rest of the design of OM takes this into account.
 func setDifference(tix *sync.Map, inactiveSet *sync.Map) (activeTickets []any) {
-	inactiveTicketIds := syncMapDump(inactiveSet)
 	// Copy the ticket cache, leaving out inactive tickets.
 	tix.Range(func(id, ticket any) bool {
 		// not ok means an error was encountered, indicating this
 		// ticket is NOT inactive (meaning it IS active)
-		if _, ok := inactiveTicketIds[id.(string)]; !ok {
-			activeTickets = append(activeTickets, ticket)
+		if _, ok := inactiveSet.Load(id); !ok {
+			// A ticket's inactive state is only removed after the ticket
+			// itself when they expire, so a ticket that is not inactive is
+			// only active if it is still in the cache.
+			if _, exists := tix.Load(id); exists {
+				activeTickets = append(activeTickets, ticket)
+			}
 		}
 		return true
 	})
-- 
2.43.0


From 33c8022e4f31573a1a2587447f06ff2a6ce6d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 02/29] fix: give redis connections back to their pools after
 use

---
 core/internal/statestore/redis/redis.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index eacd97d..baa840d 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -106,6 +106,7 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 
 	var err error
 	rConn := rr.wConnPool.Get()
+	defer rConn.Close()
 	const redisCmd = "XADD"
 	out := make([]*store.StateResponse, len(updates))
 
@@ -252,6 +253,7 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 	logger.Debugf("Executing redis command: %v %v", redisCmd, redisArgs)
 
 	rConn := rr.rConnPool.Get()
+	defer rConn.Close()
 	data, err := rConn.Do(redisCmd, redisArgs...)
 	if err != nil {
 		logger.Errorf("Redis error: %v", err)
-- 
2.43.0


From 7efd8dfa6bf80dd8472ff28483a5caa409896cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 03/29] fix: report every update redis did not confirm, with
 its own reply and key

---
 core/internal/statestore/redis/redis.go | 38 +++++++++++++++----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index baa840d..4ee2921 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -109,6 +109,8 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	defer rConn.Close()
 	const redisCmd = "XADD"
 	out := make([]*store.StateResponse, len(updates))
+	// Indexes of the updates that are sent to redis. Invalid updates aren't, so they get no reply.
+	sent := make([]int, 0, len(updates))
 
 	// Process all the requested redis commands
 	for i, update := range updates {
@@ -175,6 +177,7 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 		if err != nil {
 			logger.Errorf("Redis error: %v", err)
 		}
+		sent = append(sent, i)
 	}
 
 	// Append command to remove expired entries
@@ -189,27 +192,23 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	r, err := rConn.Do("")
 	if err != nil {
 		logger.Errorf("Do error: %v", err)
+		// No results, so none of the updates are known to be written.
+		for _, index := range sent {
+			out[index].Err = fmt.Errorf("Redis error: %w", err)
+		}
 	}
 
 	// Last command we sent was the XTRIM above, so read all results but that final one into
 	// the array of strings to return from this function
 	if r != nil { // Make sure we have results before we parse them
-		for index := 0; index < len(r.([]interface{}))-1; index++ {
-			// First, make sure this was a valid update
-			if out[index].Err == nil {
-				t, err := redis.String(r.([]interface{})[index], err)
-				if err != nil {
-					out[index].Err = fmt.Errorf("Redis output string conversion error: %w", err)
-					t = ""
-				}
-				out[index].Result = t
-				fmt.Printf(" %v - found string: %v\n", index, t)
-			} else {
-				// Error, the update didn't have all the required fields so it was never sent to redis.
-				// Return the error code, and the result is the key that generated the error.
-				fmt.Printf(" %v - had error\n", index)
-				out[index].Result = updates[index].Key
+		for reply, index := range sent {
+			t, err := redis.String(r.([]interface{})[reply], err)
+			if err != nil {
+				out[index].Err = fmt.Errorf("Redis output string conversion error: %w", err)
+				t = ""
 			}
+			out[index].Result = t
+			fmt.Printf(" %v - found string: %v\n", index, t)
 		}
 
 		// Last result from redis is a count of number of entries we removed with the XTRIM command.
@@ -222,6 +221,15 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 		}
 	}
 
+	for index := range out {
+		if out[index].Err != nil {
+			// Error, the update was not written (or didn't have all the required fields so it was never sent to
+			// redis). Return the error code, and the result is the key that generated the error.
+			fmt.Printf(" %v - had error\n", index)
+			out[index].Result = updates[index].Key
+		}
+	}
+
 	return out
 }
 
-- 
2.43.0


From d47bf3acdf7b3b34e215acb43a03ceed376da01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 04/29] fix: CreateAssignments returns the error when an
 assignment failed

---
 core/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index a2a38f4..ec6ddc8 100644
--- a/core/main.go
+++ b/core/main.go
@@ -791,7 +791,7 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 	// Record metrics
 	AssignmentsPerCall.Record(parentCtx, int64(numUpdates))
 
-	return &pb.CreateAssignmentsResponse{}, nil
+	return &pb.CreateAssignmentsResponse{}, err
 }
 
 // WatchAssignments should be considered deprecated, and is only provided for
-- 
2.43.0


From 43c5a5f9eedf7c66bb96aa86fd31b12bdae7441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 05/29] fix: send every pool of the profile with its filters to
 MMFs and account for framing when chunking

---
 core/main.go | 53 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/core/main.go b/core/main.go
index ec6ddc8..9c25d01 100644
--- a/core/main.go
+++ b/core/main.go
@@ -37,6 +37,7 @@ import (
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/credentials/insecure"
 	"google.golang.org/grpc/status"
+	"google.golang.org/protobuf/encoding/protowire"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
@@ -413,8 +414,11 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	// 1000 instead of 1024 for a little extra headroom, we're not trying to hyper-optimize here
 	// Every chunk contains the entire profile, and a portion of the tickets in that profile's pools.
 	maxPbSize := 4 * 1000 * 1000
-	// Figure out how big the message is with the profile populated, but all pools empty
-	emptyChunkSize := proto.Size(&pb.ChunkedMmfRunRequest{Profile: req.GetProfile(), NumChunks: math.MaxInt32})
+	// Figure out how big the message is with the profile populated, but all
+	// pools empty. The encoded lengths of a pool and its roster grow by a few
+	// bytes when it is filled.
+	emptyChunkSize := proto.Size(&pb.ChunkedMmfRunRequest{Profile: fillPools(req.GetProfile(), nil), NumChunks: math.MaxInt32}) +
+		16*(1+len(req.GetProfile().GetPools()))
 	curChunkSize := emptyChunkSize
 
 	// Array of 'chunks', each consisting of a portion of the pools in this profile.
@@ -427,7 +431,8 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 		for name, _ := range validPools {
 			// All the implementation details of filtering are in internal/filter/filter.go
 			if filter.In(req.GetProfile().GetPools()[name], ticket.(*pb.Ticket)) {
-				ticketSize := proto.Size(ticket.(*pb.Ticket))
+				// Size of the ticket as an element of the roster, i.e. with its tag and length.
+				ticketSize := 1 + protowire.SizeBytes(proto.Size(ticket.(*pb.Ticket)))
 				// Check if this ticket will put us over the max pb size for this chunk
 				if (curChunkSize + ticketSize) >= maxPbSize {
 					// Start a new chunk
@@ -451,22 +456,8 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	chunkedRequest := make([]*pb.ChunkedMmfRunRequest, len(chunkedPools))
 	for chunkIndex, chunk := range chunkedPools {
 		// Fill this request 'chunk' with the chunked pools we built above
-		pools := make(map[string]*pb.Pool)
-		profile := &pb.Profile{
-			Name:       req.GetProfile().GetName(),
-			Pools:      pools,
-			Extensions: req.GetProfile().GetExtensions(),
-		}
-		for name, participantRoster := range chunk {
-			profile.GetPools()[name] = &pb.Pool{
-				Participants: &pb.Roster{
-					Name:    name + "_roster",
-					Tickets: participantRoster,
-				},
-			}
-		}
 		chunkedRequest[chunkIndex] = &pb.ChunkedMmfRunRequest{
-			Profile:   profile,
+			Profile:   fillPools(req.GetProfile(), chunk),
 			NumChunks: int32(len(chunkedPools)),
 		}
 	}
@@ -723,6 +714,32 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	return nil
 }
 
+// fillPools returns a copy of the profile in which each pool's participants
+// are the given tickets. Participants in the original profile are dropped, as
+// they are an output only field.
+func fillPools(profile *pb.Profile, tickets map[string][]*pb.Ticket) *pb.Profile {
+	pools := make(map[string]*pb.Pool)
+	for name, pool := range profile.GetPools() {
+		pools[name] = &pb.Pool{
+			Name:                    pool.GetName(),
+			TagPresentFilters:       pool.GetTagPresentFilters(),
+			StringEqualsFilters:     pool.GetStringEqualsFilters(),
+			DoubleRangeFilters:      pool.GetDoubleRangeFilters(),
+			CreationTimeRangeFilter: pool.GetCreationTimeRangeFilter(),
+			Participants: &pb.Roster{
+				Name:    name + "_roster",
+				Tickets: tickets[name],
+			},
+			Extensions: pool.GetExtensions(),
+		}
+	}
+	return &pb.Profile{
+		Name:       profile.GetName(),
+		Pools:      pools,
+		Extensions: profile.GetExtensions(),
+	}
+}
+
 // CreateAssignments should be considered deprecated, and is only provided for
 // use by developers when programming against om-core. In production, having
 // the matchmaker handle this functionality doesn't make for clean failure
-- 
2.43.0


From ff80afbdd6e78792eec49a5ea3de0b12110d7655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 06/29] fix: finish the request stream to MMFs after the last
 chunk

---
 core/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/main.go b/core/main.go
index 9c25d01..7154304 100644
--- a/core/main.go
+++ b/core/main.go
@@ -568,6 +568,8 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 					mmfStream.Send(chunk)
 					logger.Debugf("MMF request chunk %02d/%02d: %0.2fmb", index+1, len(chunkedRequest), float64(proto.Size(chunk))/float64(1024*1024))
 				}
+				// The request is complete; MMFs reading until the end of the stream see it now.
+				mmfStream.CloseSend()
 
 				// Make a waitgroup that lets us know when all ticket
 				// deactivations are complete. (All tickets in matches returned
-- 
2.43.0


From 7bde433626a0693453f8d214c940028730f22840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 07/29] fix: reassemble pools whose first chunk has no
 participants

---
 mmf/server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmf/server/server.go b/mmf/server/server.go
index dbdc0d2..d00b37c 100644
--- a/mmf/server/server.go
+++ b/mmf/server/server.go
@@ -94,6 +94,10 @@ func GetChunkedRequest(stream pb.MatchMakingFunctionService_RunServer) (*pb.Prof
 				}
 			} else {
 				// concate pools split amoung multiple chunks
+				if pools[name].Participants == nil {
+					pools[name].Participants = pool.GetParticipants()
+					continue
+				}
 				pools[name].Participants.Tickets = append(pools[name].Participants.Tickets, pool.GetParticipants().GetTickets()...)
 			}
 		}
-- 
2.43.0


From 1e5a6c8a7826c2ac8e3bf400e255ea33935cdfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 08/29] fix: sample MMFs end with an error when their request
 is cut off and never use a ticket twice

---
 functions/golang/battleroyale/battleroyale.go | 1 +
 functions/golang/soloduel/soloduel.go         | 7 +++++++
 functions/golang/teamshooter/teamshooter.go   | 9 +++++++++
 3 files changed, 17 insertions(+)

diff --git a/functions/golang/battleroyale/battleroyale.go b/functions/golang/battleroyale/battleroyale.go
index 67cd503..e76041b 100644
--- a/functions/golang/battleroyale/battleroyale.go
+++ b/functions/golang/battleroyale/battleroyale.go
@@ -63,6 +63,7 @@ func (s *MmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) error {
 	req, err := server.GetChunkedRequest(stream)
 	if err != nil {
 		logger.Errorf("error getting chunked request: %v", err)
+		return err
 	}
 	logger.Infof("Generating matches for profile %v", req.GetName())
 
diff --git a/functions/golang/soloduel/soloduel.go b/functions/golang/soloduel/soloduel.go
index fc20661..059afc0 100644
--- a/functions/golang/soloduel/soloduel.go
+++ b/functions/golang/soloduel/soloduel.go
@@ -62,6 +62,7 @@ func (s *MmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) error {
 	req, err := server.GetChunkedRequest(stream)
 	if err != nil {
 		logger.Errorf("error getting chunked request: %v", err)
+		return err
 	}
 	logger.Infof("Generating matches for profile %v", req.GetName())
 
@@ -70,8 +71,14 @@ func (s *MmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) error {
 	// players at random; every pool of tickets can be matched to
 	// each other.
 	tickets := []*pb.Ticket{}
+	// A ticket can be in more than one pool, but can only be matched once.
+	seen := make(map[string]bool)
 	for pname, pool := range req.GetPools() {
 		for _, ticket := range pool.GetParticipants().GetTickets() {
+			if seen[ticket.GetId()] {
+				continue
+			}
+			seen[ticket.GetId()] = true
 			tickets = append(tickets, ticket)
 		}
 		logger.Debugf("Found %v tickets in pool %v", len(tickets), pname)
diff --git a/functions/golang/teamshooter/teamshooter.go b/functions/golang/teamshooter/teamshooter.go
index d85398f..cce7e95 100644
--- a/functions/golang/teamshooter/teamshooter.go
+++ b/functions/golang/teamshooter/teamshooter.go
@@ -62,6 +62,7 @@ func (s *MmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) error {
 	req, err := server.GetChunkedRequest(stream)
 	if err != nil {
 		logger.Errorf("error getting chunked request: %v", err)
+		return err
 	}
 	logger.Infof("Generating matches for profile %v", req.GetName())
 
@@ -76,6 +77,9 @@ func (s *MmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) error {
 		poolRosterIndices[desiredTicketType] = 0
 	}
 
+	// A ticket can be in more than one pool, but can only be matched once.
+	used := make(map[string]bool)
+
 	ticketsExhausted := false
 	var matchNum int
 	// We'll make 5v5 sessions, so each match will contain 2 rosters of 5 players.
@@ -94,6 +98,10 @@ func (s *MmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) error {
 			// Attempt to fill rosters. If there aren't enough of a given
 			// ticket type, the MMF is finished and should exit.
 			for _, desiredTicketType := range teamComp {
+				tickets := req.GetPools()[desiredTicketType].GetParticipants().GetTickets()
+				for poolRosterIndices[desiredTicketType] < len(tickets) && used[tickets[poolRosterIndices[desiredTicketType]].GetId()] {
+					poolRosterIndices[desiredTicketType]++
+				}
 				if poolRosterIndices[desiredTicketType] >= len(req.GetPools()[desiredTicketType].GetParticipants().GetTickets()) {
 					// set the flag to cleanly exit the MMF; not enough tickets to make more matches
 					ticketsExhausted = true
@@ -105,6 +113,7 @@ func (s *MmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) error {
 						rosters[teamName].Tickets,
 						req.GetPools()[desiredTicketType].GetParticipants().GetTickets()[poolRosterIndices[desiredTicketType]],
 					)
+					used[tickets[poolRosterIndices[desiredTicketType]].GetId()] = true
 					poolRosterIndices[desiredTicketType]++
 				}
 			}
-- 
2.43.0


From 06bfaabf765e608a6a4af7d5750b834e6f69a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 09/29] fix: wait for every activation call of the example
 matchmaker

---
 matchmaker-example/main.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index 6f2fad3..b288614 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -415,6 +415,7 @@ func activateTickets(ctx context.Context, grpcClient pb.OpenMatchServiceClient,
 
 			// Kick off activation in a goroutine in case we had to split on
 			// maxActivationsPerCall, this way the calls are made concurrently.
+			activationWg.Add(1) // Track this goroutine
 			go func(ticketsAwaitingActivation []string) {
 
 				// Quick in-line function to grab information
@@ -429,8 +430,6 @@ func activateTickets(ctx context.Context, grpcClient pb.OpenMatchServiceClient,
 					return ts
 				}
 
-				// Track this goroutine
-				activationWg.Add(1)
 				defer activationWg.Done()
 
 				// Activate tickets
-- 
2.43.0


From 822f72523f2a70ef4d42d2ef0cfa7c1dcccc229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 10/29] fix: watchers of a finished WatchAssignments call exit
 instead of panicking

---
 core/main.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/main.go b/core/main.go
index 7154304..5105384 100644
--- a/core/main.go
+++ b/core/main.go
@@ -832,7 +832,9 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 	// var init
 	newestTicketCtime := time.Now()
 	updateChan := make(chan *pb.StreamedWatchAssignmentsResponse)
-	defer close(updateChan)
+	// Closed when this call returns, so the goroutines below exit.
+	done := make(chan struct{})
+	defer close(done)
 
 	for _, id := range req.GetTicketIds() {
 		// Launch an asynch goroutine for each ticket ID in the request that just loops,
@@ -844,15 +846,22 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 					assignment := value.(*pb.Assignment)
 					logger.Debugf(" watchassignments loop got assignment %v for ticketid: %v",
 						assignment.Connection, ticketId)
-					updateChan <- &pb.StreamedWatchAssignmentsResponse{
+					select {
+					case updateChan <- &pb.StreamedWatchAssignmentsResponse{
 						Assignment: assignment,
 						Id:         ticketId,
+					}:
+					case <-done:
 					}
 					return
 				}
 				// TODO exp bo + jitter. Not a priority since this API is
 				// marked as deprecated.
-				time.Sleep(1 * time.Second)
+				select {
+				case <-time.After(1 * time.Second):
+				case <-done:
+					return
+				}
 			}
 		}(id)
 
-- 
2.43.0


From 090d730dfa8eaf2cf1553c0c7205c4a7422a5862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 11/29] fix: InvokeMatchmakingFunctions returns only after the
 last match has been sent

---
 core/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/main.go b/core/main.go
index 5105384..a09e2c0 100644
--- a/core/main.go
+++ b/core/main.go
@@ -472,8 +472,11 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	matchChan := make(chan *pb.Match)
 	// Channel that receives a bool flag when all MMFs have closed their streams.
 	waitChan := make(chan bool)
+	// Closed when the fan-in goroutine has sent the last match to the caller.
+	fanInDone := make(chan struct{})
 	var mmfwg sync.WaitGroup
 	go func() {
+		defer close(fanInDone)
 		logger.Debug("MMF results fan-in goroutine active")
 		for {
 			select {
@@ -713,6 +716,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	mmfwg.Wait()
 	logger.Debugf("MMF waitgroup done; closing waitchan")
 	close(waitChan)
+	<-fanInDone
 	return nil
 }
 
-- 
2.43.0


From f6c69f85f5fa016ecd10869c909533e5212e4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 12/29] fix: matches received from an MMF before it failed are
 delivered and their tickets deactivated

---
 core/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/main.go b/core/main.go
index a09e2c0..8fa6984 100644
--- a/core/main.go
+++ b/core/main.go
@@ -578,6 +578,9 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// deactivations are complete. (All tickets in matches returned
 				// by the MMF are set to inactive by OM)
 				var tdwg sync.WaitGroup
+				// Wait for all match ticket deactivation goroutines to
+				// complete, also when the MMF fails after returning matches.
+				defer tdwg.Wait()
 
 				// i counts the number of loops for metrics reporting; this
 				// loop reads streaming match responses from the mmf and runs
@@ -694,9 +697,6 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// problems too, but it's a relatively low-risk assumption that
 				// the user will only deploy a few different mmfs.
 				Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
-
-				// Wait for all match ticket deactivation goroutines to complete.
-				tdwg.Wait()
 			}
 
 			// io.EOF indicates the MMF server closed the stream (mmf is
-- 
2.43.0


From c6a455005799c30639d824ba85d574e87c161c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 13/29] fix: wait until every ticket of a match is inactive,
 and accept matches without tickets

---
 core/main.go | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/core/main.go b/core/main.go
index 8fa6984..fe7939f 100644
--- a/core/main.go
+++ b/core/main.go
@@ -637,30 +637,38 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						logger.Debugf("deactivating tickets in %v", res.GetId())
 						errs := updateTicketsActiveState(ctx, ticketIdsToDeactivate, store.Deactivate)
 						if len(errs) > 0 {
-							logger.Errorf("Error deactivating match %v tickets: %v", res.GetId(), err)
+							logger.Errorf("Error deactivating match %v tickets: %v", res.GetId(), errs)
 						}
 						logger.Debugf("Done deactivating tickets in %v", res.GetId())
 
-						// Function to check if deactivation of the last ticket
+						// Function to check if deactivation of all tickets
 						// in this match's rosters has been replicated to the
 						// local cache
-						deactivationCheck := func(ticketId string) {
+						deactivationCheck := func(ticketIds []string) {
 							// We'd never expect the deactivation to take this
 							// long to replicate, but best practices require
 							// /some/ timeout.
 							timeout := time.After(time.Second * 60)
-							select {
-							case <-timeout:
-								// Log the timeout and continue.
-								logger.Errorf("Timeout while waiting for ticket %v deactivation to be replicated to local cache", ticketId)
-								return
-							default:
-								// There is always /some/ replication delay,
-								// sleep first
-								time.Sleep(100 * time.Millisecond)
-								if _, replComplete := tc.InactiveSet.Load(ticketId); replComplete == true {
-									logger.Debugf("deactivation of ticket %v replicated to local cache", ticketId)
-									return
+							for _, ticketId := range ticketIds {
+								if _, failed := errs[ticketId]; failed {
+									// The deactivation was not written.
+									continue
+								}
+								for {
+									_, inactive := tc.InactiveSet.Load(ticketId)
+									_, exists := tc.Tickets.Load(ticketId)
+									if inactive || !exists {
+										logger.Debugf("deactivation of ticket %v replicated to local cache", ticketId)
+										break
+									}
+									// There is always /some/ replication delay
+									select {
+									case <-timeout:
+										// Log the timeout and continue.
+										logger.Errorf("Timeout while waiting for ticket %v deactivation to be replicated to local cache", ticketId)
+										return
+									case <-time.After(100 * time.Millisecond):
+									}
 								}
 							}
 						}
@@ -668,7 +676,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						// Option 1: Wait for deactivation to complete BEFORE
 						// returning the match.
 						if cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
-							deactivationCheck(ticketIdsToDeactivate[len(ticketIdsToDeactivate)-1])
+							deactivationCheck(ticketIdsToDeactivate)
 							logger.Debug("ticket deactivations complete, returning match")
 						}
 
@@ -682,7 +690,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						// Option 2: Match already returned; clean up
 						// goroutine when deactivation is complete.
 						if !cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
-							deactivationCheck(ticketIdsToDeactivate[len(ticketIdsToDeactivate)-1])
+							deactivationCheck(ticketIdsToDeactivate)
 							logger.Debug("ticket deactivations complete for previously returned match")
 						}
 						return
-- 
2.43.0


From 6ea4dbdc2f9e07021d6bdee60bd0ad9bd4200861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 14/29] fix: trim the replication stream by milliseconds, as
 redis counts

---
 core/internal/statestore/redis/redis.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 4ee2921..a198ee5 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -181,7 +181,8 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	}
 
 	// Append command to remove expired entries
-	expirationThresh := strconv.FormatInt(time.Now().Unix()-rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS"), 10)
+	// (the timestamp in redis entry ids is in milliseconds)
+	expirationThresh := strconv.FormatInt(time.Now().UnixMilli()-1000*rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS"), 10)
 	logger.Debugf("Executing redis command: XTRIM om-replication MINID %v", expirationThresh)
 	err = rConn.Send("XTRIM", "om-replication", "MINID", expirationThresh)
 	if err != nil {
-- 
2.43.0


From 5b91a8077a882734bf14d32017b772db290ea807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 15/29] fix: treat the time stamps in ticket ids as
 milliseconds, as redis assigns them

---
 .../internal/statestore/cache/replicatedticketcache.go | 10 +++++-----
 core/internal/statestore/memory/main.go                |  5 +++--
 core/main.go                                           |  2 +-
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index be18da2..63e2c13 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -256,8 +256,8 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 		// revisit / possibly do it asynchronously
 		//
 		// Ticket IDs are assigned by Redis in the format of
-		// <unix_timestamp>-<index> where the index increments every time a
-		// ticket is created during the same second. We are only
+		// <unix_timestamp_in_ms>-<index> where the index increments every time a
+		// ticket is created during the same millisecond. We are only
 		// interested in the ticket creation time (the unix timestamp) here.
 		//
 		// The in-memory replication module just follows the redis entry ID
@@ -296,7 +296,7 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if err != nil {
 					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
 				}
-				if (time.Now().Unix() - ticketCreationTime) > int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) {
+				if (time.Now().UnixMilli() - ticketCreationTime) > 1000*int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) {
 					// Ensure that when expiring a ticket from the inactive set, the ticket is always deleted as well.
 					_, existed := tc.Tickets.LoadAndDelete(id)
 					if existed {
@@ -329,8 +329,8 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if err != nil {
 					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
 				}
-				if (time.Now().Unix() - ticketCreationTime) >
-					int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {
+				if (time.Now().UnixMilli() - ticketCreationTime) >
+					1000*int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {
 					tc.Assignments.Delete(id)
 					numAssignmentDeletions++
 				}
diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index 4909021..dc5ef58 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -96,12 +96,13 @@ func (rc *memoryReplicator) SendUpdates(updates []*store.StateUpdate) []*store.S
 // GetReplId mocks how Redis Streams generate entry IDs
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rc *memoryReplicator) getReplId() string {
-	if time.Now().Unix() == rc.replTS.Unix() {
+	// Same format as redis: the timestamp is in milliseconds.
+	if time.Now().UnixMilli() == rc.replTS.UnixMilli() {
 		rc.replCount += 1
 	} else {
 		rc.replTS = time.Now()
 		rc.replCount = 0
 	}
-	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.Unix(), 10), rc.replCount)
+	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.UnixMilli(), 10), rc.replCount)
 	return id
 }
diff --git a/core/main.go b/core/main.go
index fe7939f..9ef4fc9 100644
--- a/core/main.go
+++ b/core/main.go
@@ -882,7 +882,7 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 		if err != nil {
 			logger.Error(err)
 		}
-		ticketCtime := time.Unix(x, 0)
+		ticketCtime := time.UnixMilli(x)
 
 		// find the newest ticket creation time.
 		if ticketCtime.After(newestTicketCtime) {
-- 
2.43.0


From 78e95634c8e1ce1ef298a74a17465248c976b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 16/29] fix: report ticket ids that are not valid instead of
 dropping them

---
 core/internal/statestore/memory/main.go |  2 +-
 core/internal/statestore/redis/redis.go |  2 +-
 core/main.go                            | 14 +++++++++++---
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index dc5ef58..8f4b3c9 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -40,7 +40,7 @@ func New(cfg *viper.Viper) *memoryReplicator {
 // GetReplIdValidationRegex returns a raw string representing a regular
 // expression that can be used to match replication id strings.
 func (rc *memoryReplicator) GetReplIdValidationRegex() string {
-	return `\d*-\d*`
+	return `^\d+-\d+$`
 }
 
 // GetUpdates mocks how the statestore/redis module processes a Redis Stream XRANGE command.
diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index a198ee5..34f75f1 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -323,5 +323,5 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 // expression that can be used to match replication id strings.
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rr *redisReplicator) GetReplIdValidationRegex() string {
-	return `\d*-\d*`
+	return `^\d+-\d+$`
 }
diff --git a/core/main.go b/core/main.go
index 9ef4fc9..406689b 100644
--- a/core/main.go
+++ b/core/main.go
@@ -277,7 +277,7 @@ func updateTicketsActiveState(parentCtx context.Context, ticketIds []string, com
 		if results.Err != nil {
 			// Wrap redis error and give it a gRPC internal server error status code
 			// The results.result field contains the ticket id that generated the error.
-			errs[results.Result] = fmt.Errorf("Unable to update ticket %v state to %v : %w", ticketIds[i], requestedStateAsString, results.Err)
+			errs[results.Result] = fmt.Errorf("Unable to update ticket %v state to %v : %w", results.Result, requestedStateAsString, results.Err)
 			logger.Error(errs[results.Result])
 		}
 	}
@@ -310,7 +310,7 @@ func (s *grpcServer) ActivateTickets(parentCtx context.Context, req *pb.Activate
 	errs := updateTicketsActiveState(parentCtx, validTicketIds, store.Activate)
 
 	// Add activation failures to the error details
-	_ = invalidTicketIds
+	addInvalidTicketIds(errs, invalidTicketIds)
 	err := addStateUpdateErrorDetails(errs)
 
 	// Record metrics
@@ -344,7 +344,7 @@ func (s *grpcServer) DeactivateTickets(parentCtx context.Context, req *pb.Deacti
 	errs := updateTicketsActiveState(parentCtx, validTicketIds, store.Deactivate)
 
 	// Add deactivation failures to the error details
-	_ = invalidTicketIds
+	addInvalidTicketIds(errs, invalidTicketIds)
 	err := addStateUpdateErrorDetails(errs)
 
 	// Record metrics
@@ -932,6 +932,14 @@ func validateTicketIds(ids []string) (validIds, invalidIds []string) {
 	return
 }
 
+// addInvalidTicketIds adds an error for each ticket id that was not processed
+// because it does not have the format of an id.
+func addInvalidTicketIds(errs map[string]error, invalidIds []string) {
+	for _, id := range invalidIds {
+		errs[id] = status.Error(codes.InvalidArgument, "Ticket ID not valid. Please pass a valid Ticket ID.")
+	}
+}
+
 // addStateUpdateErrorDetails is a convenience funtion to pass back detailed
 // errors for API calls that allow the client to pass in multiple updates at once.
 // gRPC API guidelines explains more about best practices using these.
-- 
2.43.0


From d97abed36afb7eba582f9379c13db30c4b869246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 17/29] fix: enforce OM_MAX_STATE_UPDATES_PER_CALL for
 assignments

---
 core/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/main.go b/core/main.go
index 406689b..26a4ea5 100644
--- a/core/main.go
+++ b/core/main.go
@@ -771,6 +771,10 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 	if req.GetAssignmentRoster() == nil || req.GetAssignmentRoster().GetAssignment() == nil {
 		return nil, status.Error(codes.InvalidArgument, "roster with assignment is required")
 	}
+	if numReqUpdates := len(req.GetAssignmentRoster().GetTickets()); numReqUpdates > cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL") {
+		return nil, status.Errorf(codes.InvalidArgument, "Too many ticket assignments requested in a single call (configured maximum %v, requested %v)",
+			cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL"), numReqUpdates)
+	}
 	assignmentPb, err := proto.Marshal(req.GetAssignmentRoster().GetAssignment())
 	if assignmentPb == nil || err != nil {
 		err = errors.Wrap(err, "failed to marshal the assignment protobuf")
-- 
2.43.0


From 69a0fb88ad5250781d2f4cdd3c91c163cc6149a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 18/29] fix: report assignments to invalid ticket ids instead
 of writing them, and name every failed id

---
 core/main.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/main.go b/core/main.go
index 26a4ea5..1cace9f 100644
--- a/core/main.go
+++ b/core/main.go
@@ -783,9 +783,11 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 	}
 
 	rChan := make(chan *store.StateResponse, len(req.GetAssignmentRoster().GetTickets()))
+	errs := map[string]error{}
+	validationRegex := regexp.MustCompile(tc.Replicator.GetReplIdValidationRegex())
 	numUpdates := 0
 	for _, ticket := range req.GetAssignmentRoster().GetTickets() {
-		if ticket.Id != "" {
+		if validationRegex.MatchString(ticket.Id) {
 			logger.Debugf("Assignment request ticket id: %v", ticket.Id)
 			tc.UpRequests <- &cache.UpdateRequest{
 				// This command is replicated to all other om-core instances
@@ -804,8 +806,8 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 			numUpdates++
 		} else {
 			// Note the error but continue processing
-			err = status.Error(codes.Internal, "Empty ticket ID in assignment request!")
-			logger.Error(err)
+			addInvalidTicketIds(errs, []string{ticket.Id})
+			logger.Error(errs[ticket.Id])
 		}
 	}
 
@@ -816,8 +818,9 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 
 		if results.Err != nil {
 			// Wrap redis error and give it a gRPC internal server error status code
-			err = status.Error(codes.Internal, fmt.Errorf("Unable to delete ticket: %w", results.Err).Error())
-			logger.Error(err)
+			// The results.result field contains the ticket id that generated the error.
+			errs[results.Result] = fmt.Errorf("Unable to assign ticket %v: %w", results.Result, results.Err)
+			logger.Error(errs[results.Result])
 		}
 	}
 
@@ -826,7 +829,7 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 	// Record metrics
 	AssignmentsPerCall.Record(parentCtx, int64(numUpdates))
 
-	return &pb.CreateAssignmentsResponse{}, err
+	return &pb.CreateAssignmentsResponse{}, addStateUpdateErrorDetails(errs)
 }
 
 // WatchAssignments should be considered deprecated, and is only provided for
-- 
2.43.0


From c4d50bcd91ac9dc25b46a7593d510aba5f221f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 19/29] fix: a watch ends when its caller is gone, and ids that
 are no time stamps do not prolong it

---
 core/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index 1cace9f..46dace6 100644
--- a/core/main.go
+++ b/core/main.go
@@ -892,7 +892,7 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 		ticketCtime := time.UnixMilli(x)
 
 		// find the newest ticket creation time.
-		if ticketCtime.After(newestTicketCtime) {
+		if err == nil && ticketCtime.After(newestTicketCtime) {
 			newestTicketCtime = ticketCtime
 		}
 	}
@@ -912,6 +912,10 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 		case <-timeout:
 			AssignmentWatches.Add(context.Background(), int64(len(req.GetTicketIds())-i))
 			return nil
+		case <-stream.Context().Done():
+			// The caller is gone.
+			AssignmentWatches.Add(context.Background(), -int64(len(req.GetTicketIds())-i))
+			return status.FromContextError(stream.Context().Err()).Err()
 		}
 	}
 
-- 
2.43.0


From 0febb4c78357cb79e8c35114bb37490b6f58ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 20/29] fix: never put a ticket into the cache that has expired
 already

---
 core/internal/statestore/cache/replicatedticketcache.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index 63e2c13..07bf86d 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -198,7 +198,14 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 
 					// All tickets begin inactive
 					tc.InactiveSet.Store(curUpdate.Key, true)
-					tc.Tickets.Store(curUpdate.Key, ticketPb)
+					if time.Now().After(ticketPb.GetExpirationTime().AsTime()) {
+						// This update is read late, for example by an instance
+						// that has just started. An expired ticket must not
+						// come back, not even until the end of this cycle.
+						logger.Debugf("ticket %v has expired already", curUpdate.Key)
+					} else {
+						tc.Tickets.Store(curUpdate.Key, ticketPb)
+					}
 					logger.Debugf("ticket replication received: %v", curUpdate.Key)
 
 				case store.Activate:
-- 
2.43.0


From dd29ce4bc9e7945b9e40b1c07cff0ec4abecd496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 21/29] fix: count the matches received from an MMF, also when
 it fails

---
 core/main.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/main.go b/core/main.go
index 46dace6..f8a9767 100644
--- a/core/main.go
+++ b/core/main.go
@@ -582,11 +582,20 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// complete, also when the MMF fails after returning matches.
 				defer tdwg.Wait()
 
-				// i counts the number of loops for metrics reporting; this
+				// i counts the number of matches for metrics reporting; this
 				// loop reads streaming match responses from the mmf and runs
 				// until a break statement is encountered.
 				var i int64
-				for i = 1; true; i++ {
+				// TODO decide if we want to track profile names as attributes
+				// as well as mmf names. Profile names are user input, so we'd
+				// have to limit cardinality somehow. Really we should address
+				// the possiblity of too many mmf names causing cardinality
+				// problems too, but it's a relatively low-risk assumption that
+				// the user will only deploy a few different mmfs.
+				defer func() {
+					Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
+				}()
+				for i = 0; true; i++ {
 					// Get results from MMF
 					var result *pb.StreamedMmfResponse
 					result, err = mmfStream.Recv()
@@ -697,14 +706,6 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 					}(resultCopy) // End of match return & ticket deactivation goroutine
 
 				} // End of match stream receiving loop
-
-				// TODO decide if we want to track profile names as attributes
-				// as well as mmf names. Profile names are user input, so we'd
-				// have to limit cardinality somehow. Really we should address
-				// the possiblity of too many mmf names causing cardinality
-				// problems too, but it's a relatively low-risk assumption that
-				// the user will only deploy a few different mmfs.
-				Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
 			}
 
 			// io.EOF indicates the MMF server closed the stream (mmf is
-- 
2.43.0


From dc9ce75dffc1d12771507afbe6c951c18606ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 22/29] fix: watches that time out leave the count of
 assignment watches

---
 core/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index f8a9767..a45c54d 100644
--- a/core/main.go
+++ b/core/main.go
@@ -911,7 +911,7 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 			AssignmentWatches.Add(context.Background(), -1)
 			stream.Send(thisAssignment)
 		case <-timeout:
-			AssignmentWatches.Add(context.Background(), int64(len(req.GetTicketIds())-i))
+			AssignmentWatches.Add(context.Background(), -int64(len(req.GetTicketIds())-i))
 			return nil
 		case <-stream.Context().Done():
 			// The caller is gone.
-- 
2.43.0


From 5d959fdd8f0aa90df15d8f3dfe3e1e3f38eaf360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 23/29] fix: count only tickets and assignments that are in the
 cache

---
 .../statestore/cache/replicatedticketcache.go        | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index 07bf86d..6e60518 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -297,7 +297,6 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 
 			// cull expired tickets from the local cache inactive ticket set
 			tc.InactiveSet.Range(func(id, _ any) bool {
-				numInactive++
 				// Get creation timestamp from ID
 				ticketCreationTime, err := strconv.ParseInt(strings.Split(id.(string), "-")[0], 10, 64)
 				if err != nil {
@@ -307,7 +306,6 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 					// Ensure that when expiring a ticket from the inactive set, the ticket is always deleted as well.
 					_, existed := tc.Tickets.LoadAndDelete(id)
 					if existed {
-						numTickets++
 						numTicketDeletions++
 					}
 
@@ -320,17 +318,21 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 
 			// cull expired tickets from local cache
 			tc.Tickets.Range(func(id, ticket any) bool {
-				numTickets++
 				if time.Now().After(ticket.(*pb.Ticket).GetExpirationTime().AsTime()) {
 					tc.Tickets.Delete(id)
 					numTicketDeletions++
+					return true
+				}
+				numTickets++
+				// The inactive set also holds ids without a ticket.
+				if _, inactive := tc.InactiveSet.Load(id); inactive {
+					numInactive++
 				}
 				return true
 			})
 
 			// cull expired assignments from local cache
 			tc.Assignments.Range(func(id, _ any) bool {
-				numAssignments++
 				// Get creation timestamp from ID
 				ticketCreationTime, err := strconv.ParseInt(strings.Split(id.(string), "-")[0], 10, 64)
 				if err != nil {
@@ -340,7 +342,9 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 					1000*int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {
 					tc.Assignments.Delete(id)
 					numAssignmentDeletions++
+					return true
 				}
+				numAssignments++
 				return true
 			})
 
-- 
2.43.0


From 745b959082cad2b6daa1f797f96704e951020a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 24/29] fix: record the numbers of expired tickets, inactive
 tickets and assignments

---
 core/internal/statestore/cache/replicatedticketcache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index 6e60518..cdf1843 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -353,6 +353,9 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 			TicketCount = numTickets
 			InactiveCount = numInactive
 
+			AssignmentsExpiredPerCycle.Record(ctx, numAssignmentDeletions)
+			InactivesExpiredPerCycle.Record(ctx, numInactiveDeletions)
+			TicketsExpiredPerCycle.Record(ctx, numTicketDeletions)
 			ExpirationCycleDuration.Record(ctx, float64(time.Since(startTime).Microseconds()/1000.0))
 
 			if numAssignmentDeletions > 0 {
-- 
2.43.0


From 587485795179adf529465586879d865b90aa5f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:11 +0000
Subject: [PATCH 25/29] fix: metrics samples do not mix the counts of two
 expiration cycles

---
 core/internal/statestore/cache/metrics.go               | 7 ++++++-
 core/internal/statestore/cache/replicatedticketcache.go | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/internal/statestore/cache/metrics.go b/core/internal/statestore/cache/metrics.go
index df199cc..3eb690f 100644
--- a/core/internal/statestore/cache/metrics.go
+++ b/core/internal/statestore/cache/metrics.go
@@ -18,6 +18,7 @@ import (
 	"log"
 	_ "net/http"
 	_ "net/http/pprof"
+	"sync"
 
 	otelmetrics "go.opentelemetry.io/otel/metric"
 )
@@ -30,6 +31,9 @@ var (
 	InactiveTickets otelmetrics.Int64ObservableUpDownCounter
 	Assignments     otelmetrics.Int64ObservableUpDownCounter
 
+	// Results of the last cache expiration cycle. The mutex keeps samples from
+	// mixing the results of two cycles.
+	countsMutex     sync.Mutex
 	TicketCount     int64
 	InactiveCount   int64
 	AssignmentCount int64
@@ -94,7 +98,8 @@ func RegisterMetrics(meterPointer *otelmetrics.Meter) {
 	// tickets and assignments.
 	if _, err := meter.RegisterCallback(
 		func(ctx context.Context, o otelmetrics.Observer) error {
-			// TODO
+			countsMutex.Lock()
+			defer countsMutex.Unlock()
 			o.ObserveInt64(ActiveTickets, TicketCount-InactiveCount)
 			o.ObserveInt64(InactiveTickets, InactiveCount)
 			o.ObserveInt64(Assignments, AssignmentCount)
diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index cdf1843..2c89d7d 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -349,9 +349,11 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 			})
 
 			// Log results and record metrics
+			countsMutex.Lock()
 			AssignmentCount = numAssignments
 			TicketCount = numTickets
 			InactiveCount = numInactive
+			countsMutex.Unlock()
 
 			AssignmentsExpiredPerCycle.Record(ctx, numAssignmentDeletions)
 			InactivesExpiredPerCycle.Record(ctx, numInactiveDeletions)
-- 
2.43.0


From 2f0ac021acb20ef4552ed61d1b7f332208c00596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 26/29] fix: the example matchmaker does not activate tickets
 that could not be created

---
 matchmaker-example/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index b288614..a193fbb 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -603,7 +603,9 @@ func (mmfe *mockMatchmakerFrontend) Run(ctx context.Context) {
 				// tickets concurrently.
 				go func() {
 					defer ticketWg.Done()
-					ticketIdsToActivate <- mmfe.proxyCreateTicket(generateMockClientRequest(ctx))
+					if id := mmfe.proxyCreateTicket(generateMockClientRequest(ctx)); id != "" {
+						ticketIdsToActivate <- id
+					}
 				}()
 			}
 
-- 
2.43.0


From 39f5d7fa58b4502aae35bd5fff42cec26cbc414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 27/29] fix: the example matchmaker does not block on more
 rejected tickets than its queue takes

---
 matchmaker-example/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index a193fbb..dd76e58 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -359,18 +359,21 @@ func main() {
 
 			// re-activate tickets from rejected matches
 			numRejectedTickets := 0
+			// DEBUG: just helps distinguish from initial ticket activations in traces and logs.
+			ctx := context.WithValue(ctx, "type", "re-activate")
 			for _, match := range rejectedMatches {
 				for _, roster := range match.GetRosters() {
 					for _, ticket := range roster.GetTickets() {
 						// queue this ticket ID to be re-activated
+						if len(ticketIdsToActivate) == cap(ticketIdsToActivate) {
+							activateTickets(ctx, grpcClient, httpClient, ticketIdsToActivate)
+						}
 						ticketIdsToActivate <- ticket.GetId()
 						numRejectedTickets++
 					}
 				}
 			}
 			logger.Infof("Queued %v tickets to be re-activated due to rejected matches", numRejectedTickets)
-			// DEBUG: just helps distinguish from initial ticket activations in traces and logs.
-			ctx := context.WithValue(ctx, "type", "re-activate")
 			activateTickets(ctx, grpcClient, httpClient, ticketIdsToActivate)
 		}
 	}
-- 
2.43.0


From 1859fc5faf1bc97b0e94ee13282a78498b20eaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 28/29] fix: the example matchmaker reads every stream of
 matches that om-core returns over HTTP

---
 matchmaker-example/main.go | 45 ++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index dd76e58..2ebfb05 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -55,6 +55,7 @@ package main
 import (
 	"bytes"
 	"context"
+	"encoding/json"
 	"errors"
 	"flag"
 	"fmt"
@@ -279,41 +280,43 @@ func main() {
 			// Send request
 			resp, err := httpClient.Do(req)
 			if err != nil {
-				logger.Errorf("cannot execute http request")
-			}
-			// Check for a successful HTTP status code
-			if resp.StatusCode != http.StatusOK {
+				logger.Errorf("cannot execute http request: %v", err)
+			} else if resp.StatusCode != http.StatusOK { // Check for a successful HTTP status code
 				log.Fatalf("Request failed with status: %s", resp.Status)
 			}
 
 			// Process the stream
-			for {
-				// Simulate message decoding (adjust based on your actual message format)
-				var msg string
-				_, err := fmt.Fscanf(resp.Body, "%s\n", &msg)
-
+			var results *json.Decoder
+			if err == nil {
+				results = json.NewDecoder(resp.Body)
+			}
+			for err == nil {
+				// grpc-gateway returns each result inside a JSON container
+				// under the key 'result', and the error that ended the stream
+				// under the key 'error'.
+				var msg struct {
+					Result json.RawMessage
+					Error  json.RawMessage
+				}
+				err = results.Decode(&msg)
 				if err == io.EOF {
 					resp.Body.Close()
 					break // End of stream
 				}
 				if err != nil {
 					resp.Body.Close()
-					logger.Fatalf("Error reading stream: %v", err)
+					logger.Errorf("Error reading stream: %v", err)
+					break
+				}
+				if msg.Error != nil { // server returned an error
+					resp.Body.Close()
+					logger.Errorf("MMF returned err: %s", msg.Error)
+					break
 				}
 
-				// NOTE: this is NOT a clean implementation.
-				// grpc-gateway returns your result inside a JSON
-				// container under the key 'result', so the actual text we need
-				// to pass to protojson.Unmarshal needs to omit the top level
-				// JSON object. Rather than marshal the text to json (which is
-				// slow), we just slice off the first 10 letters
-				// '{"result":'
-				// and the last character '}' (which is fast, but brittle)
-				trimmedMsg := msg[10:(len(msg) - 1)]
 				// Unmarshal json back into protobuf
 				resPb = &pb.StreamedMmfResponse{}
-				err = protojson.Unmarshal([]byte(trimmedMsg), resPb)
-				if err != nil {
+				if err := protojson.Unmarshal(msg.Result, resPb); err != nil {
 					logger.WithFields(logrus.Fields{
 						"pb_message": "StreamedMmfResponse",
 					}).Errorf("cannot unmarshal http response body back into protobuf")
-- 
2.43.0


From 67a0f9d9c332fb371807d50ba3f9f6b381ff2bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:38 +0000
Subject: [PATCH 29/29] fix: matches are received from an MMF while its request
 is sent

---
 core/main.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/core/main.go b/core/main.go
index a45c54d..e728c2d 100644
--- a/core/main.go
+++ b/core/main.go
@@ -566,13 +566,17 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 
 				// Request itself is chunked if all the tickets returned in
 				// ticket pools result in a total request size larger than the
-				// default gRPC message size of 4mb.
-				for index, chunk := range chunkedRequest {
-					mmfStream.Send(chunk)
-					logger.Debugf("MMF request chunk %02d/%02d: %0.2fmb", index+1, len(chunkedRequest), float64(proto.Size(chunk))/float64(1024*1024))
-				}
-				// The request is complete; MMFs reading until the end of the stream see it now.
-				mmfStream.CloseSend()
+				// default gRPC message size of 4mb. It is sent while matches
+				// are received, as MMFs may return matches before they have
+				// read all of it.
+				go func() {
+					for index, chunk := range chunkedRequest {
+						mmfStream.Send(chunk)
+						logger.Debugf("MMF request chunk %02d/%02d: %0.2fmb", index+1, len(chunkedRequest), float64(proto.Size(chunk))/float64(1024*1024))
+					}
+					// The request is complete; MMFs reading until the end of the stream see it now.
+					mmfStream.CloseSend()
+				}()
 
 				// Make a waitgroup that lets us know when all ticket
 				// deactivations are complete. (All tickets in matches returned
-- 
2.43.0

