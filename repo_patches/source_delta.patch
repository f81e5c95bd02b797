From 7e36698bf52ba2447f666e19002caa78cfa47ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 01/50] fix: RBC counts at most one Echo per member and ignores
 senders outside the committee

---
 internal/party/RBC.go | 591 +++++++++++++++++++++---------------------
 1 file changed, 299 insertions(+), 292 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index d4c58ff..7725d95 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -1,292 +1,299 @@
-package party
-
-import (
-	"bytes"
-	"crypto/sha256"
-	"log"
-	"sync"
-
-	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
-	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
-	"github.com/klauspost/reedsolomon"
-	"google.golang.org/protobuf/proto"
-)
-
-// received message shard (RS code) in RBC
-type mReceived struct {
-	j  int
-	mj []byte
-}
-
-type hm struct {
-	h string
-	m string
-}
-
-//RBC propose
-func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
-	//encapsulate
-	data, _ := proto.Marshal(M)
-	err := p.Broadcast(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data})
-	if err != nil {
-		log.Printf("[party %v] multicast RBCPropose error: %v, RBC instance ID: %s", p.PID, err, ID)
-	}
-	//log.Printf("[RBC][Party %v] broadcast RBCPropose message, instance ID: %s\n", p.PID, string(ID))
-}
-
-func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32) {
-	//encapsulate
-	data, _ := proto.Marshal(M)
-	p.BroadcastExclude(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data}, pid)
-	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
-}
-
-func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
-	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
-	var mLen int                 // the length of M_i
-	//here we ignore the validator function P(.)
-
-	//map (hash,M) to counter. Key value doesn't support []byte, so we transform it to string type.
-	var EchoMessageMap = make(map[string]map[string]int)
-
-	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
-	var T = make(map[string][]mReceived)
-	var MaxReadyNumber = int(0)
-	var MaxReadyHash []byte
-
-	var isReadySent = false
-	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
-	var mutexEchoMap sync.Mutex
-	var mutexReadyMap sync.Mutex
-
-	var readyChan = make(chan hm, p.N)
-	var RSDecStartChan = make(chan bool, 1)
-	var RSDecStart = false
-
-	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
-	for i := uint32(0); i < p.N; i++ {
-		hasReceivedReady[i] = false
-	}
-
-	//handle RBCPropose message
-	go func() {
-		m := <-p.GetMessage("RBCPropose", ID)
-		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
-		M := m.Data
-		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
-		hLocal := sha256.New()
-		hLocal.Write(M)
-
-		//encode
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		shards, _ := RSEncoder.Split(M)
-		RSEncoder.Encode(shards)
-		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
-		copy(M1, shards)
-		for j := uint32(0); j < p.N; j++ {
-			//encapsulate, append the length of M at the end of hash
-			EchoData, _ := proto.Marshal(&protobuf.RBCEcho{Hash: append(hLocal.Sum(nil), utils.IntToBytes(mLen)...), M: shards[j]})
-			p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, j)
-			// log.Printf("[party %v] sends RBCEcho to [party %v], RBC instance ID: %s", p.PID, j, ID)
-
-			/*
-				// This block is used for RBC_test when a party does not receive 2t+1 ECHO messages
-				// In this case, the algorithm sends RBCReady message through line 15 upon receiving
-				// t+1 RBCReady messages and t+1 matching RBCEcho messages
-				if p.PID == 0 || p.PID == 1 {
-					if index != uint32(2) {
-						p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
-					}
-				} else {
-					p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
-				}
-			*/
-		}
-
-	}()
-
-	//handle Echo Message, line 11-12, Algo 4 in RBC paper
-	go func() {
-		for {
-			m := <-p.GetMessage("RBCEcho", ID)
-			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
-			var payloadMessage protobuf.RBCEcho
-			proto.Unmarshal(m.Data, &payloadMessage)
-			hash := string(payloadMessage.Hash)
-			mi := string(payloadMessage.M)
-
-			mutexEchoMap.Lock()
-			_, ok1 := EchoMessageMap[hash]
-			if ok1 {
-				//ok1 denotes that the map of hash exists
-				counter, ok2 := EchoMessageMap[hash][mi]
-				if ok2 {
-					//ok2 denotes that the map of (hash,M) exists, then increase the counter
-					EchoMessageMap[hash][mi] = counter + 1
-				} else {
-					//else establish the map of (hash,M) and set it as 1
-					EchoMessageMap[hash][mi] = 1
-				}
-			} else {
-				//else establish the map of (hash,M) and set it as 1
-				EchoMessageMap[hash] = make(map[string]int)
-				EchoMessageMap[hash][mi] = 1
-			}
-
-			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4)
-			mutex.Lock()
-			if !isReadySent && uint32(EchoMessageMap[hash][mi]) >= p.N-p.F {
-				isReadySent = true
-				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
-				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-				if err != nil {
-					log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
-				}
-				// log.Printf("[party %v] multicast RBCReady in the 2t+1 Echo case, RBC instance ID: %s", p.PID, ID)
-			}
-
-			if uint32(EchoMessageMap[hash][mi]) >= p.F+1 {
-				//ready to send RBCReady when receive t+1 RBCReady messages from the others
-				// log.Printf("[party %v] has received t+1 RBCEcho messages, send to readyChan, RBC instance ID:%s", p.PID, ID)
-				readyChan <- hm{hash, mi}
-			}
-			mutex.Unlock() //TODO: move this unlock into if statement
-			mutexEchoMap.Unlock()
-			//finish this goroutine when RBCReady is sent
-			if isReadySent {
-				break
-			}
-		}
-	}()
-
-	//handle RBCReady messages
-	go func() {
-		for {
-			m := <-p.GetMessage("RBCReady", ID)
-			if hasReceivedReady[m.Sender] {
-				continue
-			} else {
-				hasReceivedReady[m.Sender] = true
-			}
-			// log.Printf("[party %v] receive RBCReady message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
-			var payloadMessage protobuf.RBCReady
-			proto.Unmarshal(m.Data, &payloadMessage)
-			hash := payloadMessage.Hash
-			hashString := string(hash)
-			mJ := payloadMessage.M
-			j := m.Sender //sender's pid, i.e., the index of the sender
-
-			mutexReadyMap.Lock()
-			//avoid the replay attack
-
-			//
-			_, ok := T[hashString]
-			if ok {
-				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
-			} else {
-				T[hashString] = make([]mReceived, 0)
-				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
-			}
-
-			if len(T[hashString]) > MaxReadyNumber {
-				MaxReadyNumber = len(T[hashString])
-				MaxReadyHash = hash
-			}
-
-			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
-			mutex.Lock()
-			if !isReadySent && uint32(len(T[hashString])) >= p.F+1 {
-				mutex.Unlock()
-				// log.Printf("[party %v] receive t+1 RBCReady message, RBC instance ID: %s\n", p.label, ID)
-				//wait for t+1 matching RBCEcho messages
-				var res hm
-				for {
-					res = <-readyChan
-					// log.Printf("[party %v] waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
-					mutexEchoMap.Lock()
-					if uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
-						mutexEchoMap.Unlock()
-						// log.Printf("[party %v] finish waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
-						mutex.Lock()
-						isReadySent = true
-						mutex.Unlock()
-						readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: hash, M: []byte(res.m)})
-						err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-						if err != nil {
-							log.Printf("[party %v] multicast RBCReady error: %v, RBC instance ID: %s", p.PID, err, ID)
-						}
-						// log.Printf("[party %v] multicast RBCReady in the t+1 Ready case, RBC instance ID: %s\n", p.label, ID)
-						break
-					}
-					mutexEchoMap.Unlock()
-				}
-			} else {
-				mutex.Unlock()
-			}
-
-			// upon receiving |T| >= 2t+1 = n-t
-			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
-				RSDecStart = true
-				RSDecStartChan <- true
-			}
-			mutexReadyMap.Unlock()
-
-			//FIXME: kill this for loop when the RBC message is reconstructed
-			// isRec := <-RecDone
-			// if isRec {
-			// 	break
-			// }
-		}
-	}()
-
-	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
-	<-RSDecStartChan
-	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
-	for r := uint32(0); r <= p.F; r++ {
-		for {
-			if uint32(MaxReadyNumber) >= p.N-p.F+r {
-				break
-			}
-		}
-
-		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
-		mutexReadyMap.Lock()
-		copy(mReceivedTemp, T[string(MaxReadyHash)])
-		mutexReadyMap.Unlock()
-
-		var M = make([][]byte, p.N)
-		for i := uint32(0); i < p.N-p.F+r; i++ {
-			M[mReceivedTemp[i].j] = mReceivedTemp[i].mj
-		}
-
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		ok, _ := RSEncoder.Verify(M)
-		if !ok {
-			RSEncoder.Reconstruct(M)
-		}
-
-		//parse M and remove the padding zeros
-		var mReconstructed = make([]byte, 0)
-		for i := uint32(0); i < p.N-(p.F+1); i++ {
-			mReconstructed = append(mReconstructed, M[i]...)
-		}
-
-		//the last several bytes in MaxReadyHash are the lenth of M' (see line 9, Algo 4 in RBC paper)
-		mLenNew := utils.BytesToInt(MaxReadyHash[256/8:])
-		//the first 256/8 bytes in MaxReadyHash are the hash value
-		MaxReadyHash = MaxReadyHash[:256/8]
-		mReconstructed = mReconstructed[0:mLenNew]
-
-		hNew := sha256.New()
-		hNew.Write(mReconstructed)
-
-		if bytes.Equal(hNew.Sum(nil), MaxReadyHash) {
-			var replyMessage protobuf.Message
-			proto.Unmarshal(mReconstructed, &replyMessage)
-			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
-			return &replyMessage
-		}
-	}
-	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
-	return nil
-}
+package party
+
+import (
+	"bytes"
+	"crypto/sha256"
+	"log"
+	"sync"
+
+	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
+	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
+	"github.com/klauspost/reedsolomon"
+	"google.golang.org/protobuf/proto"
+)
+
+// received message shard (RS code) in RBC
+type mReceived struct {
+	j  int
+	mj []byte
+}
+
+type hm struct {
+	h string
+	m string
+}
+
+//RBC propose
+func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
+	//encapsulate
+	data, _ := proto.Marshal(M)
+	err := p.Broadcast(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data})
+	if err != nil {
+		log.Printf("[party %v] multicast RBCPropose error: %v, RBC instance ID: %s", p.PID, err, ID)
+	}
+	//log.Printf("[RBC][Party %v] broadcast RBCPropose message, instance ID: %s\n", p.PID, string(ID))
+}
+
+func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32) {
+	//encapsulate
+	data, _ := proto.Marshal(M)
+	p.BroadcastExclude(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data}, pid)
+	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
+}
+
+func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
+	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
+	var mLen int                 // the length of M_i
+	//here we ignore the validator function P(.)
+
+	//map (hash,M) to counter. Key value doesn't support []byte, so we transform it to string type.
+	var EchoMessageMap = make(map[string]map[string]int)
+
+	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
+	var T = make(map[string][]mReceived)
+	var MaxReadyNumber = int(0)
+	var MaxReadyHash []byte
+
+	var isReadySent = false
+	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
+	var mutexEchoMap sync.Mutex
+	var mutexReadyMap sync.Mutex
+
+	var readyChan = make(chan hm, p.N)
+	var RSDecStartChan = make(chan bool, 1)
+	var RSDecStart = false
+
+	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
+	var hasReceivedEcho = make(map[uint32]bool)
+	for i := uint32(0); i < p.N; i++ {
+		hasReceivedReady[i] = false
+		hasReceivedEcho[i] = false
+	}
+
+	//handle RBCPropose message
+	go func() {
+		m := <-p.GetMessage("RBCPropose", ID)
+		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
+		M := m.Data
+		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
+		hLocal := sha256.New()
+		hLocal.Write(M)
+
+		//encode
+		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
+		shards, _ := RSEncoder.Split(M)
+		RSEncoder.Encode(shards)
+		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
+		copy(M1, shards)
+		for j := uint32(0); j < p.N; j++ {
+			//encapsulate, append the length of M at the end of hash
+			EchoData, _ := proto.Marshal(&protobuf.RBCEcho{Hash: append(hLocal.Sum(nil), utils.IntToBytes(mLen)...), M: shards[j]})
+			p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, j)
+			// log.Printf("[party %v] sends RBCEcho to [party %v], RBC instance ID: %s", p.PID, j, ID)
+
+			/*
+				// This block is used for RBC_test when a party does not receive 2t+1 ECHO messages
+				// In this case, the algorithm sends RBCReady message through line 15 upon receiving
+				// t+1 RBCReady messages and t+1 matching RBCEcho messages
+				if p.PID == 0 || p.PID == 1 {
+					if index != uint32(2) {
+						p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
+					}
+				} else {
+					p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
+				}
+			*/
+		}
+
+	}()
+
+	//handle Echo Message, line 11-12, Algo 4 in RBC paper
+	go func() {
+		for {
+			m := <-p.GetMessage("RBCEcho", ID)
+			//count at most one RBCEcho from each party
+			if m.Sender >= p.N || hasReceivedEcho[m.Sender] {
+				continue
+			}
+			hasReceivedEcho[m.Sender] = true
+			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
+			var payloadMessage protobuf.RBCEcho
+			proto.Unmarshal(m.Data, &payloadMessage)
+			hash := string(payloadMessage.Hash)
+			mi := string(payloadMessage.M)
+
+			mutexEchoMap.Lock()
+			_, ok1 := EchoMessageMap[hash]
+			if ok1 {
+				//ok1 denotes that the map of hash exists
+				counter, ok2 := EchoMessageMap[hash][mi]
+				if ok2 {
+					//ok2 denotes that the map of (hash,M) exists, then increase the counter
+					EchoMessageMap[hash][mi] = counter + 1
+				} else {
+					//else establish the map of (hash,M) and set it as 1
+					EchoMessageMap[hash][mi] = 1
+				}
+			} else {
+				//else establish the map of (hash,M) and set it as 1
+				EchoMessageMap[hash] = make(map[string]int)
+				EchoMessageMap[hash][mi] = 1
+			}
+
+			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4)
+			mutex.Lock()
+			if !isReadySent && uint32(EchoMessageMap[hash][mi]) >= p.N-p.F {
+				isReadySent = true
+				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
+				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
+				if err != nil {
+					log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
+				}
+				// log.Printf("[party %v] multicast RBCReady in the 2t+1 Echo case, RBC instance ID: %s", p.PID, ID)
+			}
+
+			if uint32(EchoMessageMap[hash][mi]) >= p.F+1 {
+				//ready to send RBCReady when receive t+1 RBCReady messages from the others
+				// log.Printf("[party %v] has received t+1 RBCEcho messages, send to readyChan, RBC instance ID:%s", p.PID, ID)
+				readyChan <- hm{hash, mi}
+			}
+			mutex.Unlock() //TODO: move this unlock into if statement
+			mutexEchoMap.Unlock()
+			//finish this goroutine when RBCReady is sent
+			if isReadySent {
+				break
+			}
+		}
+	}()
+
+	//handle RBCReady messages
+	go func() {
+		for {
+			m := <-p.GetMessage("RBCReady", ID)
+			if m.Sender >= p.N || hasReceivedReady[m.Sender] {
+				continue
+			} else {
+				hasReceivedReady[m.Sender] = true
+			}
+			// log.Printf("[party %v] receive RBCReady message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
+			var payloadMessage protobuf.RBCReady
+			proto.Unmarshal(m.Data, &payloadMessage)
+			hash := payloadMessage.Hash
+			hashString := string(hash)
+			mJ := payloadMessage.M
+			j := m.Sender //sender's pid, i.e., the index of the sender
+
+			mutexReadyMap.Lock()
+			//avoid the replay attack
+
+			//
+			_, ok := T[hashString]
+			if ok {
+				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
+			} else {
+				T[hashString] = make([]mReceived, 0)
+				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
+			}
+
+			if len(T[hashString]) > MaxReadyNumber {
+				MaxReadyNumber = len(T[hashString])
+				MaxReadyHash = hash
+			}
+
+			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
+			mutex.Lock()
+			if !isReadySent && uint32(len(T[hashString])) >= p.F+1 {
+				mutex.Unlock()
+				// log.Printf("[party %v] receive t+1 RBCReady message, RBC instance ID: %s\n", p.label, ID)
+				//wait for t+1 matching RBCEcho messages
+				var res hm
+				for {
+					res = <-readyChan
+					// log.Printf("[party %v] waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
+					mutexEchoMap.Lock()
+					if uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
+						mutexEchoMap.Unlock()
+						// log.Printf("[party %v] finish waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
+						mutex.Lock()
+						isReadySent = true
+						mutex.Unlock()
+						readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: hash, M: []byte(res.m)})
+						err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
+						if err != nil {
+							log.Printf("[party %v] multicast RBCReady error: %v, RBC instance ID: %s", p.PID, err, ID)
+						}
+						// log.Printf("[party %v] multicast RBCReady in the t+1 Ready case, RBC instance ID: %s\n", p.label, ID)
+						break
+					}
+					mutexEchoMap.Unlock()
+				}
+			} else {
+				mutex.Unlock()
+			}
+
+			// upon receiving |T| >= 2t+1 = n-t
+			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
+				RSDecStart = true
+				RSDecStartChan <- true
+			}
+			mutexReadyMap.Unlock()
+
+			//FIXME: kill this for loop when the RBC message is reconstructed
+			// isRec := <-RecDone
+			// if isRec {
+			// 	break
+			// }
+		}
+	}()
+
+	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
+	<-RSDecStartChan
+	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
+	for r := uint32(0); r <= p.F; r++ {
+		for {
+			if uint32(MaxReadyNumber) >= p.N-p.F+r {
+				break
+			}
+		}
+
+		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
+		mutexReadyMap.Lock()
+		copy(mReceivedTemp, T[string(MaxReadyHash)])
+		mutexReadyMap.Unlock()
+
+		var M = make([][]byte, p.N)
+		for i := uint32(0); i < p.N-p.F+r; i++ {
+			M[mReceivedTemp[i].j] = mReceivedTemp[i].mj
+		}
+
+		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
+		ok, _ := RSEncoder.Verify(M)
+		if !ok {
+			RSEncoder.Reconstruct(M)
+		}
+
+		//parse M and remove the padding zeros
+		var mReconstructed = make([]byte, 0)
+		for i := uint32(0); i < p.N-(p.F+1); i++ {
+			mReconstructed = append(mReconstructed, M[i]...)
+		}
+
+		//the last several bytes in MaxReadyHash are the lenth of M' (see line 9, Algo 4 in RBC paper)
+		mLenNew := utils.BytesToInt(MaxReadyHash[256/8:])
+		//the first 256/8 bytes in MaxReadyHash are the hash value
+		MaxReadyHash = MaxReadyHash[:256/8]
+		mReconstructed = mReconstructed[0:mLenNew]
+
+		hNew := sha256.New()
+		hNew.Write(mReconstructed)
+
+		if bytes.Equal(hNew.Sum(nil), MaxReadyHash) {
+			var replyMessage protobuf.Message
+			proto.Unmarshal(mReconstructed, &replyMessage)
+			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
+			return &replyMessage
+		}
+	}
+	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
+	return nil
+}
-- 
2.43.0


From 45b828dce040b4e8ae859166c32b2c06f18852de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 02/50] fix: RBC sends Ready once and only for the hash that
 f+1 Readys and f+1 Echos agree on

---
 internal/party/RBC.go | 93 +++++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 53 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 7725d95..7c29bd2 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -18,11 +18,6 @@ type mReceived struct {
 	mj []byte
 }
 
-type hm struct {
-	h string
-	m string
-}
-
 //RBC propose
 func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
 	//encapsulate
@@ -59,7 +54,6 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	var mutexEchoMap sync.Mutex
 	var mutexReadyMap sync.Mutex
 
-	var readyChan = make(chan hm, p.N)
 	var RSDecStartChan = make(chan bool, 1)
 	var RSDecStart = false
 
@@ -70,6 +64,20 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 		hasReceivedEcho[i] = false
 	}
 
+	//broadcast RBCReady at most once, the caller must hold the mutex
+	sendReady := func(hash string, mi string) {
+		if isReadySent {
+			return
+		}
+		isReadySent = true
+		readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
+		err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
+		if err != nil {
+			log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
+		}
+		// log.Printf("[party %v] multicast RBCReady, RBC instance ID: %s", p.PID, ID)
+	}
+
 	//handle RBCPropose message
 	go func() {
 		m := <-p.GetMessage("RBCPropose", ID)
@@ -140,27 +148,21 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 				EchoMessageMap[hash][mi] = 1
 			}
 
-			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4)
+			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4),
+			//or t+1 matching RBCEcho messages in addition to t+1 RBCReady messages with the same hash (line 13-15, Algo 4)
 			mutex.Lock()
-			if !isReadySent && uint32(EchoMessageMap[hash][mi]) >= p.N-p.F {
-				isReadySent = true
-				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
-				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-				if err != nil {
-					log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
-				}
-				// log.Printf("[party %v] multicast RBCReady in the 2t+1 Echo case, RBC instance ID: %s", p.PID, ID)
-			}
-
-			if uint32(EchoMessageMap[hash][mi]) >= p.F+1 {
-				//ready to send RBCReady when receive t+1 RBCReady messages from the others
-				// log.Printf("[party %v] has received t+1 RBCEcho messages, send to readyChan, RBC instance ID:%s", p.PID, ID)
-				readyChan <- hm{hash, mi}
+			mutexReadyMap.Lock()
+			readyCounter := uint32(len(T[hash]))
+			mutexReadyMap.Unlock()
+			echoCounter := uint32(EchoMessageMap[hash][mi])
+			if echoCounter >= p.N-p.F || (echoCounter >= p.F+1 && readyCounter >= p.F+1) {
+				sendReady(hash, mi)
 			}
+			readySent := isReadySent
 			mutex.Unlock() //TODO: move this unlock into if statement
 			mutexEchoMap.Unlock()
 			//finish this goroutine when RBCReady is sent
-			if isReadySent {
+			if readySent {
 				break
 			}
 		}
@@ -200,44 +202,29 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 				MaxReadyHash = hash
 			}
 
-			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
-			mutex.Lock()
-			if !isReadySent && uint32(len(T[hashString])) >= p.F+1 {
-				mutex.Unlock()
-				// log.Printf("[party %v] receive t+1 RBCReady message, RBC instance ID: %s\n", p.label, ID)
-				//wait for t+1 matching RBCEcho messages
-				var res hm
-				for {
-					res = <-readyChan
-					// log.Printf("[party %v] waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
-					mutexEchoMap.Lock()
-					if uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
-						mutexEchoMap.Unlock()
-						// log.Printf("[party %v] finish waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
-						mutex.Lock()
-						isReadySent = true
-						mutex.Unlock()
-						readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: hash, M: []byte(res.m)})
-						err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-						if err != nil {
-							log.Printf("[party %v] multicast RBCReady error: %v, RBC instance ID: %s", p.PID, err, ID)
-						}
-						// log.Printf("[party %v] multicast RBCReady in the t+1 Ready case, RBC instance ID: %s\n", p.label, ID)
-						break
-					}
-					mutexEchoMap.Unlock()
-				}
-			} else {
-				mutex.Unlock()
-			}
-
 			// upon receiving |T| >= 2t+1 = n-t
 			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
 				RSDecStart = true
 				RSDecStartChan <- true
 			}
+			readyCounter := uint32(len(T[hashString]))
 			mutexReadyMap.Unlock()
 
+			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
+			//the t+1 RBCEcho messages must match the hash of the t+1 RBCReady messages
+			if readyCounter >= p.F+1 {
+				mutexEchoMap.Lock()
+				mutex.Lock()
+				for mi, counter := range EchoMessageMap[hashString] {
+					if uint32(counter) >= p.F+1 {
+						sendReady(hashString, mi)
+						break
+					}
+				}
+				mutex.Unlock()
+				mutexEchoMap.Unlock()
+			}
+
 			//FIXME: kill this for loop when the RBC message is reconstructed
 			// isRec := <-RecDone
 			// if isRec {
-- 
2.43.0


From 596430ef101a44e4f6b92355bb78a9786c715b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 03/50] fix: RBC reconstruction survives up to f wrong shards
 and does not busy-wait

---
 internal/party/RBC.go | 103 +++++++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 47 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 7c29bd2..dd37e1d 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -46,16 +46,14 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 
 	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
 	var T = make(map[string][]mReceived)
-	var MaxReadyNumber = int(0)
-	var MaxReadyHash []byte
 
 	var isReadySent = false
 	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
 	var mutexEchoMap sync.Mutex
 	var mutexReadyMap sync.Mutex
 
-	var RSDecStartChan = make(chan bool, 1)
-	var RSDecStart = false
+	//RSDecChan delivers a hash with at least 2t+1 = n-t matching shards, once for each additional shard
+	var RSDecChan = make(chan []byte, p.N)
 
 	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
 	var hasReceivedEcho = make(map[uint32]bool)
@@ -197,15 +195,9 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
 			}
 
-			if len(T[hashString]) > MaxReadyNumber {
-				MaxReadyNumber = len(T[hashString])
-				MaxReadyHash = hash
-			}
-
 			// upon receiving |T| >= 2t+1 = n-t
-			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
-				RSDecStart = true
-				RSDecStartChan <- true
+			if uint32(len(T[string(hash)])) >= p.N-p.F {
+				RSDecChan <- hash
 			}
 			readyCounter := uint32(len(T[hashString]))
 			mutexReadyMap.Unlock()
@@ -233,48 +225,19 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 		}
 	}()
 
-	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
-	<-RSDecStartChan
+	//wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
+	//if some of them are wrong and the reconstruction fails, wait for one more shard
 	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
 	for r := uint32(0); r <= p.F; r++ {
-		for {
-			if uint32(MaxReadyNumber) >= p.N-p.F+r {
-				break
-			}
-		}
+		hash := <-RSDecChan
 
 		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
 		mutexReadyMap.Lock()
-		copy(mReceivedTemp, T[string(MaxReadyHash)])
+		copy(mReceivedTemp, T[string(hash)])
 		mutexReadyMap.Unlock()
 
-		var M = make([][]byte, p.N)
-		for i := uint32(0); i < p.N-p.F+r; i++ {
-			M[mReceivedTemp[i].j] = mReceivedTemp[i].mj
-		}
-
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		ok, _ := RSEncoder.Verify(M)
-		if !ok {
-			RSEncoder.Reconstruct(M)
-		}
-
-		//parse M and remove the padding zeros
-		var mReconstructed = make([]byte, 0)
-		for i := uint32(0); i < p.N-(p.F+1); i++ {
-			mReconstructed = append(mReconstructed, M[i]...)
-		}
-
-		//the last several bytes in MaxReadyHash are the lenth of M' (see line 9, Algo 4 in RBC paper)
-		mLenNew := utils.BytesToInt(MaxReadyHash[256/8:])
-		//the first 256/8 bytes in MaxReadyHash are the hash value
-		MaxReadyHash = MaxReadyHash[:256/8]
-		mReconstructed = mReconstructed[0:mLenNew]
-
-		hNew := sha256.New()
-		hNew.Write(mReconstructed)
-
-		if bytes.Equal(hNew.Sum(nil), MaxReadyHash) {
+		mReconstructed, ok := p.rsDecode(mReceivedTemp, hash)
+		if ok {
 			var replyMessage protobuf.Message
 			proto.Unmarshal(mReconstructed, &replyMessage)
 			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
@@ -284,3 +247,49 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
 	return nil
 }
+
+//rsDecode reconstructs the message which matches hash. Up to t of the received shards may be wrong,
+//so all the combinations of data shards are tried until one of them matches the hash.
+func (p *HonestParty) rsDecode(received []mReceived, hash []byte) ([]byte, bool) {
+	if len(hash) != 256/8+4 {
+		return nil, false
+	}
+	//the last several bytes in hash are the lenth of M' (see line 9, Algo 4 in RBC paper)
+	mLen := utils.BytesToInt(hash[256/8:])
+	dataShards := int(p.N - (p.F + 1))
+	shardLen := (mLen + dataShards - 1) / dataShards
+	RSEncoder, _ := reedsolomon.New(dataShards, int(p.F+1))
+
+	var M = make([][]byte, p.N)
+	var try func(next int, chosen int) ([]byte, bool)
+	try = func(next int, chosen int) ([]byte, bool) {
+		if chosen == dataShards {
+			shards := make([][]byte, p.N)
+			copy(shards, M)
+			if RSEncoder.ReconstructData(shards) != nil {
+				return nil, false
+			}
+			//parse the shards and remove the padding zeros
+			var mReconstructed = make([]byte, 0)
+			for i := 0; i < dataShards; i++ {
+				mReconstructed = append(mReconstructed, shards[i]...)
+			}
+			mReconstructed = mReconstructed[0:mLen]
+			hNew := sha256.Sum256(mReconstructed)
+			return mReconstructed, bytes.Equal(hNew[:], hash[:256/8])
+		}
+		for i := next; i <= len(received)-(dataShards-chosen); i++ {
+			if shardLen == 0 || len(received[i].mj) != shardLen {
+				continue
+			}
+			M[received[i].j] = received[i].mj
+			m, ok := try(i+1, chosen+1)
+			if ok {
+				return m, true
+			}
+			M[received[i].j] = nil
+		}
+		return nil, false
+	}
+	return try(0, 0)
+}
-- 
2.43.0


From 5516a4fbed873eb25a45fa4bbdb18b0a51461459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 04/50] fix: RBC ignores a proposal that cannot be encoded
 instead of crashing

---
 internal/party/RBC.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index dd37e1d..7bccf0d 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -87,7 +87,11 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 
 		//encode
 		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		shards, _ := RSEncoder.Split(M)
+		shards, errSplit := RSEncoder.Split(M)
+		if errSplit != nil {
+			log.Printf("[party %v] cannot encode the RBCPropose message from [party %v]: %v, RBC instance ID: %s", p.PID, m.Sender, errSplit, ID)
+			return
+		}
 		RSEncoder.Encode(shards)
 		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
 		copy(M1, shards)
-- 
2.43.0


From 2ec05f4c18a266dbe90a5d24f1ba57f3a8843823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 05/50] fix: a handoff RBC instance accepts a proposal only
 from its own proposer

---
 internal/party/ProactivizeAndShareDist.go | 4 ++--
 internal/party/RBC.go                     | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index a77084e..ed80e5b 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -142,7 +142,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	//Verify
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
-			m := p.RBCReceive([]byte(string(ID) + "_1," + strconv.FormatUint(uint64(j), 10)))
+			m := p.RBCReceive([]byte(string(ID) + "_1," + strconv.FormatUint(uint64(j), 10)), j-1)
 			//log.Printf("[Proactivize Verify][New party %v] Have received the COM message from new party %v, RBCID: %s\n", p.PID, m.Sender, string(ID)+strconv.FormatUint(uint64(j), 10))
 			var ReceivedData protobuf.Commit
 			proto.Unmarshal(m.Data, &ReceivedData)
@@ -570,7 +570,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	//Verify
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
-			m := p.RBCReceive([]byte(string(ID) + "_2," + strconv.FormatUint(uint64(j), 10)))
+			m := p.RBCReceive([]byte(string(ID) + "_2," + strconv.FormatUint(uint64(j), 10)), j-1)
 			NewCommitData := m.Data
 			ReceivedCB, _ := bls.FromCompressedG1(NewCommitData)
 			var oldCB bls.G1Point
diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 7bccf0d..559b297 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -36,7 +36,9 @@ func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32)
 	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
 }
 
-func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
+//RBCReceive runs an RBC instance and returns the delivered message.
+//If the proposer of this instance is given, proposals from any other party are ignored.
+func (p *HonestParty) RBCReceive(ID []byte, proposer ...uint32) *protobuf.Message {
 	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
 	var mLen int                 // the length of M_i
 	//here we ignore the validator function P(.)
@@ -79,6 +81,9 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	//handle RBCPropose message
 	go func() {
 		m := <-p.GetMessage("RBCPropose", ID)
+		for len(proposer) > 0 && m.Sender != proposer[0] {
+			m = <-p.GetMessage("RBCPropose", ID)
+		}
 		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
 		M := m.Data
 		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
-- 
2.43.0


From 01909e0127c0fc016c5e19b25c5680696a0e6525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 06/50] fix: VSS rejects a dealing whose g^s does not match the
 committed g^F(j)

---
 internal/party/VSS.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index d3b78a6..50e1d03 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -88,6 +88,7 @@ func (p *HonestParty) VerifyVSSSendReceived(polyValue []bls.Fr, witness []bls.G1
 
 	if !bls.EqualG1(&piReceived.Gs, &tmpGs) {
 		log.Printf("[VSSEcho][Party %v] VSSSend Verify FAIL, g_s=%v, but prod(g^F(index))=%v \n", p.PID, piReceived.Gs.String(), tmpGs.String())
+		return false
 	}
 
 	//Verify KZG.VerifyEval(CZjk,0,0,WZjk0) == 1 && CBjk == CZjk * g^Fj(k) for k in [1,2t+1]
-- 
2.43.0


From ea1433654c74a2c65c396c611dceac1c3d33c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 07/50] fix: VSS rejects a malformed dealing instead of
 crashing

---
 internal/party/VSS.go         | 12 ++++++++++--
 internal/party/party_utils.go | 37 +++++++++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index 50e1d03..fabe580 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -28,7 +28,11 @@ func (p *HonestParty) VSSShareReceive(ID []byte) {
 	if err != nil {
 		log.Printf("[VSSEcho][Party %v] Unmarshal err: %v\n", p.PID, err)
 	}
-	piFromSend.SetFromVSSMessage(payloadMessage.Pi, p.F)
+	err = piFromSend.SetFromVSSMessage(payloadMessage.Pi, p.F)
+	if err != nil || uint32(len(payloadMessage.BijList)) < 2*p.F+2 || uint32(len(payloadMessage.WBijList)) < 2*p.F+2 {
+		log.Printf("[VSSEcho][Party %v] Verify VSSSend FAIL, the message is malformed\n", p.PID)
+		return
+	}
 
 	for j := uint32(1); j < 2*p.F+2; j++ {
 
@@ -36,7 +40,11 @@ func (p *HonestParty) VSSShareReceive(ID []byte) {
 		copy(value_byte[:], payloadMessage.BijList[j])
 		bls.FrFrom32(&polyValueFromSend[j], value_byte)
 
-		wit_raw, _ := bls.FromCompressedG1(payloadMessage.WBijList[j])
+		wit_raw, errWit := bls.FromCompressedG1(payloadMessage.WBijList[j])
+		if errWit != nil {
+			log.Printf("[VSSEcho][Party %v] Verify VSSSend FAIL, the message is malformed\n", p.PID)
+			return
+		}
 		bls.CopyG1(&witnessFromSend[j], wit_raw)
 	}
 
diff --git a/internal/party/party_utils.go b/internal/party/party_utils.go
index d676632..cc216f6 100644
--- a/internal/party/party_utils.go
+++ b/internal/party/party_utils.go
@@ -237,17 +237,37 @@ func EncapsulateVSSSend(pi *Pi, BijList []bls.Fr, WBijList []bls.G1Point, F uint
 	return data
 }
 
-func (pi *Pi) SetFromVSSMessage(m *protobuf.Pi, F uint32) {
+//decodeG1 decodes compressed points received from another party, nil is returned if any of them is malformed
+func decodeG1(compressed ...[]byte) []*bls.G1Point {
+	points := make([]*bls.G1Point, len(compressed))
+	for i := range compressed {
+		point, err := bls.FromCompressedG1(compressed[i])
+		if err != nil {
+			return nil
+		}
+		points[i] = point
+	}
+	return points
+}
+
+//SetFromVSSMessage sets pi to the received m, an error is returned if m is malformed
+func (pi *Pi) SetFromVSSMessage(m *protobuf.Pi, F uint32) error {
+	if m == nil || uint32(len(m.PiContents)) < 2*F+2 {
+		return errors.New("malformed pi")
+	}
 
-	Gs_raw, _ := bls.FromCompressedG1(m.Gs)
-	bls.CopyG1(&pi.Gs, Gs_raw)
+	Gs_raw := decodeG1(m.Gs)
+	if Gs_raw == nil {
+		return errors.New("malformed point in pi")
+	}
+	bls.CopyG1(&pi.Gs, Gs_raw[0])
 
 	for j := uint32(1); j <= 2*F+1; j++ {
-
-		CBj_raw, _ := bls.FromCompressedG1(m.PiContents[j].CBj)
-		CZj_raw, _ := bls.FromCompressedG1(m.PiContents[j].CZj)
-		WZ0_raw, _ := bls.FromCompressedG1(m.PiContents[j].WZ0)
-		gFj_raw, _ := bls.FromCompressedG1(m.PiContents[j].GFj)
+		raw := decodeG1(m.PiContents[j].GetCBj(), m.PiContents[j].GetCZj(), m.PiContents[j].GetWZ0(), m.PiContents[j].GetGFj())
+		if raw == nil {
+			return errors.New("malformed point in pi")
+		}
+		CBj_raw, CZj_raw, WZ0_raw, gFj_raw := raw[0], raw[1], raw[2], raw[3]
 
 		bls.CopyG1(&pi.PiContents[j].CBj, CBj_raw)
 		bls.CopyG1(&pi.PiContents[j].CZj, CZj_raw)
@@ -256,6 +276,7 @@ func (pi *Pi) SetFromVSSMessage(m *protobuf.Pi, F uint32) {
 
 		pi.PiContents[j].j = j
 	}
+	return nil
 }
 
 func (pi *Pi) Set(src *Pi, F uint32) {
-- 
2.43.0


From 112a9b5fca786d0e210f4c9caf268b1a87393a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 08/50] fix: share reduction skips malformed messages instead
 of crashing

---
 internal/party/ShareReduce.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index 249a37c..d1de9f0 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -80,8 +80,12 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 		var ShareReduceData protobuf.ShareReduce
 		proto.Unmarshal(m.Data, &ShareReduceData)
 
-		tmpC, _ := bls.FromCompressedG1(ShareReduceData.C)
-		tmpwJ, _ := bls.FromCompressedG1(ShareReduceData.W)
+		points := decodeG1(ShareReduceData.C, ShareReduceData.W)
+		if points == nil {
+			log.Printf("[ShareReduce][New party %v] Malformed Reduce message from old party %v\n", p.PID, m.Sender)
+			continue
+		}
+		tmpC, tmpwJ := points[0], points[1]
 		tmpvJ_bytes := [32]byte{}
 		copy(tmpvJ_bytes[:], ShareReduceData.V)
 		bls.CopyG1(&C, tmpC)
-- 
2.43.0


From 409d69d53249bb61cf350ba49abd1e5944f91e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 09/50] fix: Prepare and ShareReduce count at most one message
 per old member

---
 internal/party/ShareReduce.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index d1de9f0..685a34b 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -69,6 +69,8 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 	C := bls.ZeroG1
 	wJ := bls.ZeroG1
 
+	var received = make(map[uint32]bool) //handle at most one message from each old party
+
 	var cnt = 0 //used to judge whether to execute p.ShareReduceStart_new = time.Now()
 
 	for {
@@ -76,6 +78,10 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 		if cnt == 0 {
 			p.ShareReduceStart_new = time.Now()
 		}
+		if m.Sender >= p.N || received[m.Sender] {
+			continue
+		}
+		received[m.Sender] = true
 		//log.Printf("[ShareReduce][New party %v] Receive ShareReduce message from %v\n", p.PID, m.Sender)
 		var ShareReduceData protobuf.ShareReduce
 		proto.Unmarshal(m.Data, &ShareReduceData)
@@ -176,6 +182,8 @@ func (p *HonestParty) PrepareReceive(ID []byte) {
 
 	ProofMap := make(map[string]int)
 
+	var received = make(map[uint32]bool) //handle at most one message from each old party
+
 	var cnt = 0 //used to judge whether to execute p.PrepareStart_new = time.Now()
 
 	for {
@@ -183,6 +191,10 @@ func (p *HonestParty) PrepareReceive(ID []byte) {
 		if cnt == 0 {
 			p.PrepareStart_new = time.Now()
 		}
+		if msg.Sender >= p.N || received[msg.Sender] {
+			continue
+		}
+		received[msg.Sender] = true
 		hash := sha256.New()
 		hash.Write(msg.Data)
 		hashToString := string(hash.Sum(nil))
-- 
2.43.0


From 71d971122368cde1245b26b5b8c9e7357a792b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 10/50] fix: every evaluation of a Reshare message must verify,
 not only the last one

---
 internal/party/ProactivizeAndShareDist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index ed80e5b..ae6f132 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -292,7 +292,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				p.mutexKZG.Unlock()
 				if !verifyReshareOK {
 					log.Printf("[Proactivize Vote][New party %v] Verify Reshare message from party %v FAIL, CQ[%v][%v]: %s, vjki:%v, wjki:%s\n", p.PID, m.Sender, indexJ, k, CQ[indexJ][k].String(), vjki[k].String(), wjki[k].String())
-					// break
+					break
 				}
 			}
 			if verifyReshareOK {
-- 
2.43.0


From 2fd3f9c1a6b7448b76a7a289f83f41aaa7491561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 11/50] fix: combine 2f+1 signature shares on a resharing into
 a valid threshold signature

---
 internal/party/ProactivizeAndShareDist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index ae6f132..97b7a61 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -417,12 +417,12 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 					SSig[k] = append(SSig[k], SSigElement{mSender + 1, ReceivedSigShare})
 					if !CombinedFlag[k] && uint32(len(SSig[k])) >= 2*p.F+1 {
-						var tmpSig = make([][]byte, len(SSig))
+						var tmpSig = make([][]byte, len(SSig[k]))
 						for i := 0; i < len(SSig[k]); i++ {
 							tmpSig[i] = SSig[k][i].Sig
 						}
 						//converting uint32 to int is dangerous
-						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), tmpSig, int(2*p.F), int(p.N))
+						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), tmpSig, int(2*p.F+1), int(p.N))
 						CombinedFlag[k] = true
 						//log.Printf("[Proactivize Recover][New party %v] Have combined a full signature for party %v, holding %v signatures now\n", p.PID, k, len(MVBAIn.Sig)+1)
 
-- 
2.43.0


From 9d485a91ed79e312612d267253fe6968edc839ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 12/50] fix: Refresh waits until every agreed contribution is
 recovered

---
 internal/party/ProactivizeAndShareDist.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 97b7a61..4b37659 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -434,7 +434,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							log.Printf("[Proactivize MVBA][New party %v] Call MVBA with input length %v\n", p.PID, len(MVBAIn.J))
 							MVBAInData, _ := proto.Marshal(MVBAIn)
 							MVBASent = true
-							MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+							//do not hold the mutexes during MVBA, Recover messages are still needed
+							go func() {
+								MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+							}()
 						}
 						mutexMVBAIn.Unlock()
 					}
@@ -442,10 +445,6 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				} else {
 					log.Printf("[Proactivize Recover][New party %v] Verify Recover message from party %v FAIL, k=%v. Current Srec[%v] lenth: %v\\n", p.PID, mSender, k, k, len(SRec[k]))
 				}
-				if MVBASent {
-					//log.Printf("[Proactivize Recover][New party %v] Recover done\n", p.PID)
-					break
-				}
 			}
 		}(k)
 	}
@@ -463,13 +462,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	for _, j := range MVBARes.J {
 
-		//wait until all related flgCom = 1
-		if !flgCom[j] {
-			<-RecDone[j]
-			p.mutexKZG.Lock()
-			CQ[j][p.PID+1] = *p.KZG.CommitToPoly(Q[j][p.PID+1])
-			p.mutexKZG.Unlock()
-		}
+		//wait until Q[j][p.PID+1] is recovered, which happens only after flgCom[j] = 1
+		<-RecDone[j]
 
 		for i := 0; uint32(i) < p.F+1; i++ {
 			var tmpCoeff bls.Fr
-- 
2.43.0


From 0d6ad3f5e0162a09766e16cd4a7cf8ce6f08c5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 13/50] fix: at most one Recover message per member and index,
 and none can block the others

---
 internal/party/ProactivizeAndShareDist.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 4b37659..acaeb89 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -349,7 +349,12 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	RecoverMsgChan := make([]chan RecoverMsg, p.N+1) // index 0 is not used
 	for i := uint32(0); i <= p.N; i++ {
-		RecoverMsgChan[i] = make(chan RecoverMsg)
+		RecoverMsgChan[i] = make(chan RecoverMsg, p.N)
+	}
+
+	var receivedRecover = make([]map[uint32]bool, p.N+1) // start from 1
+	for i := uint32(0); i <= p.N; i++ {
+		receivedRecover[i] = make(map[uint32]bool)
 	}
 
 	//Recover - receiving messages
@@ -360,6 +365,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			var ReceivedRecoverData protobuf.Recover
 			proto.Unmarshal(m.Data, &ReceivedRecoverData)
 			k := ReceivedRecoverData.Index
+			//handle at most one Recover message for each index from each party
+			if m.Sender >= p.N || k == 0 || k > p.N || receivedRecover[k][m.Sender] {
+				continue
+			}
+			receivedRecover[k][m.Sender] = true
 			//log.Printf("[Proactivize Recover][New party %v] Have received Recover message from party %v, k=%v\n", p.PID, m.Sender, k)
 			var tmpV_Array [32]byte
 			copy(tmpV_Array[:], ReceivedRecoverData.V)
-- 
2.43.0


From 4dbd1df7d781801ac245b2518e81097082bcf834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 14/50] fix: handoff handles at most one Reshare, ShareDist and
 Success message per member

---
 internal/party/ProactivizeAndShareDist.go | 14 +++++++++++++-
 internal/party/party_utils.go             | 15 +++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index acaeb89..f02f8a1 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -258,10 +258,14 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	// 	SigShare[i] = make(map[uint32][]byte)
 	// }
 
+	isFirstReshare := p.oncePerSender()
 	for ctr := uint32(1); ctr <= p.N; ctr++ {
 		//ctr is not used here
 		go func(ctr uint32) {
 			m := <-p.GetMessage("Reshare", ID)
+			for !isFirstReshare(m) {
+				m = <-p.GetMessage("Reshare", ID)
+			}
 			var ReceivedReshareData protobuf.Reshare
 			proto.Unmarshal(m.Data, &ReceivedReshareData)
 			// fmt.Printf("[Proactivize Vote][New party %v] Have received Reshare message from party %v\n", p.PID, m.Sender)
@@ -615,10 +619,14 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	var SuccessSent = false
 	var SuccessSentChan = make(chan bool, 1)
 
+	isFirstShareDist := p.oncePerSender()
 	for index := uint32(0); index < p.N; index++ {
 		//index is not used here
 		go func(index uint32) {
 			m := <-p.GetMessage("ShareDist", ID)
+			for !isFirstShareDist(m) {
+				m = <-p.GetMessage("ShareDist", ID)
+			}
 
 			var ReceivedShareDistData protobuf.ShareDist
 			proto.Unmarshal(m.Data, &ReceivedShareDistData)
@@ -688,8 +696,12 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	go func() {
 		<-SuccessSentChan
+		isFirstSuccess := p.oncePerSender()
 		for {
-			<-p.GetMessage("Success", ID)
+			m := <-p.GetMessage("Success", ID)
+			if !isFirstSuccess(m) {
+				continue
+			}
 			// the content is useless here
 			// proto.Unmarshal(m.Data, &ReceivedSuccessData)
 			SuccessCount++
diff --git a/internal/party/party_utils.go b/internal/party/party_utils.go
index cc216f6..a41ed49 100644
--- a/internal/party/party_utils.go
+++ b/internal/party/party_utils.go
@@ -237,6 +237,21 @@ func EncapsulateVSSSend(pi *Pi, BijList []bls.Fr, WBijList []bls.G1Point, F uint
 	return data
 }
 
+//oncePerSender returns a function which reports whether m is the first message from its sender, a party of the committee
+func (p *HonestParty) oncePerSender() func(m *protobuf.Message) bool {
+	var mutex sync.Mutex
+	var received = make(map[uint32]bool)
+	return func(m *protobuf.Message) bool {
+		mutex.Lock()
+		defer mutex.Unlock()
+		if m.Sender >= p.N || received[m.Sender] {
+			return false
+		}
+		received[m.Sender] = true
+		return true
+	}
+}
+
 //decodeG1 decodes compressed points received from another party, nil is returned if any of them is malformed
 func decodeG1(compressed ...[]byte) []*bls.G1Point {
 	points := make([]*bls.G1Point, len(compressed))
-- 
2.43.0


From 8dae799cc797c6ae6c60443f9b80249e6b881895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 15/50] fix: handoff skips malformed messages instead of
 crashing

---
 internal/party/ProactivizeAndShareDist.go | 58 ++++++++++++++++++-----
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index f02f8a1..6f0f2c3 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -147,11 +147,20 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			var ReceivedData protobuf.Commit
 			proto.Unmarshal(m.Data, &ReceivedData)
 
+			if uint32(len(ReceivedData.Pi)) < 2*p.F+1 {
+				log.Printf("[Proactivize Verify][New party %v] Malformed Commit message, sender: %v\n", p.PID, j)
+				return
+			}
+
 			//TODO: This part can be replaced by verifying the commitment of KZG (reducing the communication cost from O(2t+1) to O(1))
 			GFjList := make([]bls.G1Point, 2*p.F+1)
 			for i := uint32(0); i < 2*p.F+1; i++ {
-				tmpGFj, _ := bls.FromCompressedG1(ReceivedData.Pi[i].GFj)
-				bls.CopyG1(&GFjList[i], tmpGFj)
+				tmpGFj := decodeG1(ReceivedData.Pi[i].GetGFj())
+				if tmpGFj == nil {
+					log.Printf("[Proactivize Verify][New party %v] Malformed Commit message, sender: %v\n", p.PID, j)
+					return
+				}
+				bls.CopyG1(&GFjList[i], tmpGFj[0])
 			}
 			p.mutexKZG.Lock()
 			interRes := p.InterpolateComOrWit(2*p.F, 0, GFjList)
@@ -167,10 +176,13 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			//parse piJ from RBC1J
 			for k := uint32(0); k < 2*p.F+1; k++ {
-				CQk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].CBj)
-				CZk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].CZj)
-				wZk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].WZ0)
-				GFk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].GFj)
+				points := decodeG1(ReceivedData.Pi[k].CBj, ReceivedData.Pi[k].CZj, ReceivedData.Pi[k].WZ0, ReceivedData.Pi[k].GFj)
+				if points == nil {
+					log.Printf("[Proactivize Verify][New party %v] Malformed Commit message, sender: %v\n", p.PID, j)
+					revertFlag = true
+					break
+				}
+				CQk, CZk, wZk, GFk := points[0], points[1], points[2], points[3]
 
 				var mulRes bls.G1Point
 				p.mutexKZG.Lock()
@@ -281,12 +293,21 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			var wjki = make([]bls.G1Point, 2*p.F+2)
 			var verifyReshareOK = false
 
+			if uint32(len(ReceivedReshareData.Qk)) < 2*p.F+1 || uint32(len(ReceivedReshareData.WQk)) < 2*p.F+1 {
+				log.Printf("[Proactivize Vote][New party %v] Malformed Reshare message from party %v\n", p.PID, m.Sender)
+				return
+			}
 			for k := uint32(1); k <= 2*p.F+1; k++ {
 				vjki_bytes := [32]byte{}
 				copy(vjki_bytes[:], ReceivedReshareData.Qk[k-1])
 				bls.FrFrom32(&vjki[k], vjki_bytes)
-				tmpWjki, _ := bls.FromCompressedG1(ReceivedReshareData.WQk[k-1])
-				wjki[k] = *tmpWjki
+				tmpWjki := decodeG1(ReceivedReshareData.WQk[k-1])
+				if tmpWjki == nil {
+					log.Printf("[Proactivize Vote][New party %v] Malformed Reshare message from party %v\n", p.PID, m.Sender)
+					verifyReshareOK = false
+					break
+				}
+				wjki[k] = *tmpWjki[0]
 
 				C := CQ[indexJ][k]
 				var position_vjki bls.Fr
@@ -379,8 +400,12 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			copy(tmpV_Array[:], ReceivedRecoverData.V)
 			var v bls.Fr
 			bls.FrFrom32(&v, tmpV_Array)
-			w, _ := bls.FromCompressedG1(ReceivedRecoverData.W)
-			RecoverMsgChan[k] <- RecoverMsg{m.Sender, k, v, *w, ReceivedRecoverData.SigShare}
+			w := decodeG1(ReceivedRecoverData.W)
+			if w == nil {
+				log.Printf("[Proactivize Recover][New party %v] Malformed Recover message from party %v\n", p.PID, m.Sender)
+				continue
+			}
+			RecoverMsgChan[k] <- RecoverMsg{m.Sender, k, v, *w[0], ReceivedRecoverData.SigShare}
 		}
 	}()
 
@@ -580,7 +605,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 		go func(j uint32) {
 			m := p.RBCReceive([]byte(string(ID) + "_2," + strconv.FormatUint(uint64(j), 10)), j-1)
 			NewCommitData := m.Data
-			ReceivedCB, _ := bls.FromCompressedG1(NewCommitData)
+			ReceivedCB, errCB := bls.FromCompressedG1(NewCommitData)
+			if errCB != nil {
+				log.Printf("[ShareDist Verify][New party %v] Malformed NewCom from RBC_2j, j=%v\n", p.PID, j)
+				return
+			}
 			var oldCB bls.G1Point
 			if j <= 2*p.F+1 {
 				bls.CopyG1(&oldCB, &p.Proof.PiContents[j].CBj)
@@ -640,13 +669,16 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			currentCB := SCom[j].CB
 			SComMutex.Unlock()
 			var vjShareDist bls.Fr
-			var wjShareDist *bls.G1Point
 			var i bls.Fr
 
 			var vjShareDist_Array [32]byte
 			copy(vjShareDist_Array[:], ReceivedShareDistData.B)
 			bls.FrFrom32(&vjShareDist, vjShareDist_Array)
-			wjShareDist, _ = bls.FromCompressedG1(ReceivedShareDistData.WB)
+			wjShareDist, errW := bls.FromCompressedG1(ReceivedShareDistData.WB)
+			if errW != nil {
+				log.Printf("[ShareDist Interpolate][New party %v] Malformed ShareDist message from new party %v\n", p.PID, j)
+				return
+			}
 			bls.AsFr(&i, uint64(p.PID+1))
 
 			p.mutexKZG.Lock()
-- 
2.43.0


From 6d92f96c0fdd1541265ba6b7d43e6665d43c534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 16/50] fix: ShareDist collects the received points under a
 lock

---
 internal/party/ProactivizeAndShareDist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 6f0f2c3..db17b0e 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -548,6 +548,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 		SComChan[i] = make(chan bool, 1)
 	}
 	var SB = make([]SBElement, 0)
+	var SBMutex sync.Mutex //SB and SuccessSent are used by several goroutines
 	var SComMutex sync.Mutex
 
 	var startCommitChan = make(chan bool, 1)
@@ -687,6 +688,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			if verifyKZGOk {
 				//log.Printf("[ShareDist Interpolate][New party %v] Verify ShareDist message from new party %v SUCCESS\n", p.PID, j)
+				SBMutex.Lock()
+				defer SBMutex.Unlock()
 				SB = append(SB, SBElement{
 					index: j,
 					CB:    currentCB,
-- 
2.43.0


From 78c89d2666fd7a465973dcc79f0db6f2b67bbdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 17/50] fix: a committee keeps the refreshed commitments and
 witnesses, so that it can hand off again

---
 internal/party/ProactivizeAndShareDist.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index db17b0e..db40590 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -542,6 +542,12 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	<-ProactivizeDone
 	p.ShareDistStart = time.Now()
 
+	//commitments of the previous B(x,j), j=1,...,2t+1, CB[0] is not used
+	var oldCBList = make([]bls.G1Point, 2*p.F+2)
+	for j := uint32(1); j <= 2*p.F+1; j++ {
+		bls.CopyG1(&oldCBList[j], &p.Proof.PiContents[j].CBj)
+	}
+
 	var SCom = make(map[uint32]SComElement)
 	var SComChan = make([]chan bool, p.N+1)
 	for i := uint32(0); i < p.N+1; i++ {
@@ -613,14 +619,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			}
 			var oldCB bls.G1Point
 			if j <= 2*p.F+1 {
-				bls.CopyG1(&oldCB, &p.Proof.PiContents[j].CBj)
+				bls.CopyG1(&oldCB, &oldCBList[j])
 			} else {
-				CBList := make([]bls.G1Point, 2*p.F+2)
-				for i := uint32(1); i <= 2*p.F+1; i++ {
-					bls.CopyG1(&CBList[i], &p.Proof.PiContents[i].CBj)
-				}
 				p.mutexKZG.Lock()
-				oldCB = p.InterpolateComOrWit(2*p.F, j, CBList[1:])
+				oldCB = p.InterpolateComOrWit(2*p.F, j, oldCBList[1:])
 				p.mutexKZG.Unlock()
 			}
 
@@ -710,6 +712,15 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 					//log.Printf("[ShareDist Interpolate][New party %v] Recover the fullShare B'(i,y):\n", p.PID)
 					//log.Printf("(B'(%v,y)):%s",p.PID+1,PolyToString(p.fullShare))
 
+					//keep the new commitments and witnesses, which are needed in the next handoff
+					for t := uint32(0); t < 2*p.F+1; t++ {
+						bls.CopyFr(&p.witnessIndexes[t], &DistX[t])
+						bls.CopyG1(&p.witness[t], &SB[t].w)
+						p.mutexKZG.Lock()
+						bls.AddG1(&p.Proof.PiContents[t+1].CBj, &oldCBList[t+1], &CQsum[t+1])
+						p.mutexKZG.Unlock()
+					}
+
 					var SuccessMessage protobuf.Success
 					SuccessMessage.Nothing = []byte("s") // Send whatever you want
 					SuccessData, _ := proto.Marshal(&SuccessMessage)
-- 
2.43.0


From b6820afa8adbbb9f209a56d898638f1a15582a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 18/50] fix: a Recover message must carry its sender's own
 signature share

---
 internal/party/ProactivizeAndShareDist.go |  4 ++--
 internal/party/party_utils.go             | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index db40590..863341e 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -437,9 +437,9 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				KZGVerifyOk := p.KZG.CheckProofSingle(&C, &wkij, &index, &vkij)
 				p.mutexKZG.Unlock()
 
-				SigShareVerifyOk := p.tblsScheme.VerifyPartial(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), ReceivedSigShare)
+				SigShareVerifyOk := p.verifySigShare([]byte(strconv.FormatUint(uint64(k), 10)), ReceivedSigShare, mSender)
 
-				if KZGVerifyOk && (SigShareVerifyOk == nil) {
+				if KZGVerifyOk && SigShareVerifyOk {
 					mutexSRec.Lock()
 					SRec[k] = append(SRec[k], SRecElement{mSender + 1, vkij})
 					//log.Printf("[Proactivize Recover][New party %v] Verify Recover message from party %v SUCCESS, k=%v. Current Srec[%v] lenth: %v\n", p.PID, mSender, k, k, len(SRec[k]))
diff --git a/internal/party/party_utils.go b/internal/party/party_utils.go
index a41ed49..1f3d664 100644
--- a/internal/party/party_utils.go
+++ b/internal/party/party_utils.go
@@ -6,6 +6,7 @@ import (
 	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
+	"github.com/drand/kyber/sign/tbls"
 	"google.golang.org/protobuf/proto"
 	"log"
 	"sync"
@@ -252,6 +253,15 @@ func (p *HonestParty) oncePerSender() func(m *protobuf.Message) bool {
 	}
 }
 
+//verifySigShare reports whether sigShare is the signature share of sender on msg
+func (p *HonestParty) verifySigShare(msg []byte, sigShare []byte, sender uint32) bool {
+	index, err := tbls.SigShare(sigShare).Index()
+	if err != nil || sender >= p.N || uint32(index) != sender {
+		return false
+	}
+	return p.tblsScheme.VerifyPartial(p.SigPK, msg, sigShare) == nil
+}
+
 //decodeG1 decodes compressed points received from another party, nil is returned if any of them is malformed
 func decodeG1(compressed ...[]byte) []*bls.G1Point {
 	points := make([]*bls.G1Point, len(compressed))
-- 
2.43.0


From 19bc5701331ba981238cade23b233d7a09ba19d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 19/50] fix: MVBA quorums count distinct members, each with its
 own signature share

---
 internal/party/message_handler.go | 19 +++++++++++--------
 internal/party/pb.go              |  5 +++--
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 0333d5a..dbd2287 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -62,15 +62,16 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 		buf.Write(IDr)
 		coinName := buf.Bytes()
 		coins := [][]byte{}
+		isFirst := p.oncePerSender()
 		for {
 			select {
 			case <-ctx.Done():
 				return
 			case m := <-p.GetMessage("Done", IDr):
 				payload := core.Decapsulation("Done", m).(*protobuf.Done)
-				err := tblsScheme.VerifyPartial(p.SigPK, coinName, payload.CoinShare) //verifyshare("Done"||ID||r)
+				ok := p.verifySigShare(coinName, payload.CoinShare, m.Sender) //verifyshare("Done"||ID||r)
 
-				if err == nil {
+				if ok && isFirst(m) {
 					coins = append(coins, payload.CoinShare)
 					if len(coins) == int(p.F+1) {
 
@@ -122,6 +123,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	//PreVoteMessage Handler
 	go func() {
 		PNr := [][]byte{}
+		isFirstNo := p.oncePerSender()
 		for {
 			select {
 			case <-ctx.Done():
@@ -154,8 +156,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					buf.WriteByte(byte(0)) //false
 					buf.Write(IDr)
 					sm := buf.Bytes()
-					err := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sig) //verifyShare(false||ID||r)
-					if err == nil {
+					ok := p.verifySigShare(sm, payload.Sig, m.Sender) //verifyShare(false||ID||r)
+					if ok && isFirstNo(m) {
 						PNr = append(PNr, payload.Sig)
 						if len(PNr) > int(2*p.F) {
 							noSignature, _ := tblsScheme.Recover(p.SigPK, sm, PNr, int(2*p.F+1), int(p.N))
@@ -178,6 +180,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	go func() {
 		VYr := [][]byte{}
 		VNr := [][]byte{}
+		isFirst := p.oncePerSender()
 		for {
 			select {
 			case <-ctx.Done():
@@ -195,8 +198,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					sm := buf.Bytes()
 					err1 := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||l||1||h)
 					sm[len([]byte("Echo"))+len(IDrj[l])] = 2
-					err2 := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sigshare) //verifyShare("Echo"||ID||r||l||2||h)
-					if err1 == nil && err2 == nil {
+					ok2 := p.verifySigShare(sm, payload.Sigshare, m.Sender) //verifyShare("Echo"||ID||r||l||2||h)
+					if err1 == nil && ok2 && isFirst(m) {
 						VYr = append(VYr, payload.Sigshare)
 						if len(VYr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm, VYr, int(2*p.F+1), int(p.N))
@@ -221,8 +224,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					buf2.Write([]byte("Unlock"))
 					buf2.Write(IDr)
 					sm2 := buf2.Bytes()
-					err2 := tblsScheme.VerifyPartial(p.SigPK, sm2, payload.Sigshare) //verifyShare("Unlock"||ID||r)
-					if err1 == nil && err2 == nil {
+					ok2 := p.verifySigShare(sm2, payload.Sigshare, m.Sender) //verifyShare("Unlock"||ID||r)
+					if err1 == nil && ok2 && isFirst(m) {
 						VNr = append(VNr, payload.Sigshare)
 						if len(VNr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VYr, int(2*p.F+1), int(p.N))
diff --git a/internal/party/pb.go b/internal/party/pb.go
index 6e3fff6..dcd6964 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -23,6 +23,7 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 	p.Broadcast(valueMessage)
 
 	sigs := [][]byte{}
+	isFirst := p.oncePerSender()
 	h := sha3.Sum512(value)
 	var buf bytes.Buffer
 	buf.Write([]byte("Echo"))
@@ -37,9 +38,9 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 		case m := <-p.GetMessage("Echo", ID):
 
 			payload := core.Decapsulation("Echo", m).(*protobuf.Echo)
-			err := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sigshare) //verifyshare("Echo"||ID||h)
+			ok := p.verifySigShare(sm, payload.Sigshare, m.Sender) //verifyshare("Echo"||ID||h)
 
-			if err == nil {
+			if ok && isFirst(m) {
 				sigs = append(sigs, payload.Sigshare)
 				if len(sigs) > int(2*p.F) {
 					signature, _ := tblsScheme.Recover(p.SigPK, sm, sigs, int(2*p.F+1), int(p.N))
-- 
2.43.0


From d06c46ed7ea0bbc9c99c55be0512b2e5b1bbaa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 20/50] fix: MVBA counts one Finish per member and ignores
 senders outside the committee

---
 internal/party/message_handler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index dbd2287..fe25430 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -29,11 +29,15 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	//FinishMessage Handler
 	go func() {
 		FrLength := 0
+		isFirst := p.oncePerSender()
 		for {
 			select {
 			case <-ctx.Done():
 				return
 			case m := <-p.GetMessage("Finish", IDr):
+				if m.Sender >= p.N {
+					continue
+				}
 				payload := core.Decapsulation("Finish", m).(*protobuf.Finish)
 				h := sha3.Sum512(payload.Value)
 				var buf bytes.Buffer
@@ -43,7 +47,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 				buf.Write(h[:])
 				sm := buf.Bytes()
 				err := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||index||2||h)
-				if err == nil {
+				if err == nil && isFirst(m) {
 					Fr.Store(m.Sender, payload)
 					FrLength++
 					if FrLength == int(2*p.F+1) {
-- 
2.43.0


From 4be0071b4dc609538e302156c6856d0d71e06ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 21/50] fix: MVBA moves on after 2f+1 votes whatever their
 order, with a valid unlock certificate after 2f+1 No votes

---
 internal/party/message_handler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index fe25430..3d0a7df 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -183,6 +183,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	//VoteMessage Handler
 	go func() {
 		VYr := [][]byte{}
+		var yesVote *protobuf.Vote //a valid Yes vote
 		VNr := [][]byte{}
 		isFirst := p.oncePerSender()
 		for {
@@ -205,6 +206,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					ok2 := p.verifySigShare(sm, payload.Sigshare, m.Sender) //verifyShare("Echo"||ID||r||l||2||h)
 					if err1 == nil && ok2 && isFirst(m) {
 						VYr = append(VYr, payload.Sigshare)
+						yesVote = payload
 						if len(VYr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm, VYr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 0
@@ -232,9 +234,13 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					if err1 == nil && ok2 && isFirst(m) {
 						VNr = append(VNr, payload.Sigshare)
 						if len(VNr) > int(2*p.F) {
-							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VYr, int(2*p.F+1), int(p.N))
+							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VNr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 1
 							voteNoChannel <- sig
+						} else if len(VYr)+len(VNr) > int(2*p.F) {
+							voteFlagChannel <- 2
+							voteOtherChannel <- yesVote.Value
+							voteOtherChannel <- yesVote.Sig
 						}
 					}
 				}
-- 
2.43.0


From 8e9b93b4d8a976c1c3c968af5f48fd3aa0a018ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 22/50] fix: an invalid proposal in a provable broadcast does
 not kill the receiver

---
 internal/party/pb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/pb.go b/internal/party/pb.go
index dcd6964..70607be 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -64,7 +64,7 @@ func Receiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, val
 		if validator != nil {
 			err2 := validator(p, ID, sender, payload.Value, payload.Validation)
 			if err2 != nil {
-				log.Fatalln(err2)
+				log.Printf("[party %v] invalid Value message from [party %v]: %v\n", p.PID, sender, err2)
 				return nil, nil, false //sender is dishonest
 			}
 		}
-- 
2.43.0


From 511b0081260b2d249a918161b624a776c3ed3e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 23/50] fix: a provable broadcast accepts a value only from its
 own sender

---
 internal/party/pb.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/party/pb.go b/internal/party/pb.go
index 70607be..34a8eec 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -54,11 +54,16 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 
 //Receiver is run by the receiver of a instance of provable broadcast
 func Receiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, validator func(*HonestParty, []byte, uint32, []byte, []byte) error) ([]byte, []byte, bool) {
-	select {
-	case <-ctx.Done():
-		return nil, nil, false
-	case m := <-p.GetMessage("Value", ID):
-		//TODO:check sender == m.Sender
+	for {
+		var m *protobuf.Message
+		select {
+		case <-ctx.Done():
+			return nil, nil, false
+		case m = <-p.GetMessage("Value", ID):
+		}
+		if m.Sender != sender {
+			continue
+		}
 
 		payload := (core.Decapsulation("Value", m)).(*protobuf.Value)
 		if validator != nil {
-- 
2.43.0


From 6b7dde11641f2b0a02cea3e861deeed1e0cd69d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 24/50] fix: a party that halts relays the Halt message so that
 all the others can halt

---
 internal/party/message_handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 3d0a7df..a3c1e5a 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -116,6 +116,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 				sm := buf.Bytes()
 				err := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||l||2||h)
 				if err == nil {
+					//relay the message, the other parties may not have received it
+					p.Broadcast(core.Encapsulation("Halt", IDr, p.PID, payload))
 					haltChannel <- payload.Value
 					return
 				}
-- 
2.43.0


From bd48b348294c0c28e4501a31cc6168354d4ce807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 25/50] fix: a due coin share is released even if MVBA has just
 finished locally

---
 internal/party/main_process.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index 67feb09..84b7b81 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -154,21 +154,26 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 func election(ctx context.Context, p *HonestParty, IDr []byte, doneFlageChannel chan bool) {
 	select {
 	case <-ctx.Done():
-		return
+		//the other parties still need the coin share if this party is due to release it
+		select {
+		case <-doneFlageChannel:
+		default:
+			return
+		}
 	case <-doneFlageChannel:
-		var buf bytes.Buffer
-		buf.Write([]byte("Done"))
-		buf.Write(IDr)
-		coinName := buf.Bytes()
+	}
 
-		coinShare, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(p.SigSK, coinName) //sign("Done"||ID||r||coin share)
-		doneMessage := core.Encapsulation("Done", IDr, p.PID, &protobuf.Done{
-			CoinShare: coinShare,
-		})
+	var buf bytes.Buffer
+	buf.Write([]byte("Done"))
+	buf.Write(IDr)
+	coinName := buf.Bytes()
 
-		p.Broadcast(doneMessage)
+	coinShare, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(p.SigSK, coinName) //sign("Done"||ID||r||coin share)
+	doneMessage := core.Encapsulation("Done", IDr, p.PID, &protobuf.Done{
+		CoinShare: coinShare,
+	})
 
-	}
+	p.Broadcast(doneMessage)
 }
 
 func preVote(ctx context.Context, p *HonestParty, IDr []byte, l uint32, Lr *sync.Map) {
-- 
2.43.0


From 57c1a41e2b8d6511e6fb993898fae0de722d7033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 26/50] fix: MVBA rounds after the first accept only proposals
 that cannot contradict an earlier decision

---
 internal/party/main_process.go | 41 +++++++++++++++++++++++++++++++---
 internal/party/spb.go          |  5 +++--
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index 84b7b81..baf6667 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -13,13 +13,16 @@ import (
 	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
 	kyberbls "github.com/drand/kyber-bls12381"
+	"github.com/drand/kyber/sign/bls"
 	"github.com/drand/kyber/sign/tbls"
+	"golang.org/x/crypto/sha3"
 )
 
 //MainProcess is the main process of smvba instances
 func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []byte {
 	haltChannel := make(chan []byte, 1) //control all round
 	ctx, cancel := context.WithCancel(context.Background())
+	leaders := []uint32{} //leaders of the previous rounds
 
 	for r := uint32(0); ; r++ {
 		//fmt.Println("party", p.PID, ":round", r, "start", "value=", value, ID)
@@ -39,8 +42,6 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 		voteNoChannel := make(chan []byte, 1)
 		voteOtherChannel := make(chan []byte, 1)
 
-		//TODO: CheckValue
-
 		//Initialize SPB instances
 		var buf bytes.Buffer
 		buf.Write(ID)
@@ -55,9 +56,10 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 			IDrj = append(IDrj, buf.Bytes())
 		}
 
+		checkValue := proposalChecker(ID, r, leaders)
 		for i := uint32(0); i < p.N; i++ {
 			go func(j uint32) {
-				value, sig, ok := SPBReceiver(spbCtx, p, j, IDrj[j])
+				value, sig, ok := SPBReceiver(spbCtx, p, j, IDrj[j], checkValue)
 				if ok { //save Lock
 					Lr.Store(j, &protobuf.Lock{
 						Value: value,
@@ -101,6 +103,7 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 		case l := <-leaderChannel:
 			spbCancel()
 			wg.Wait()
+			leaders = append(leaders, l)
 
 			//short-cut
 			value1, ok1 := Fr.Load(l)
@@ -151,6 +154,38 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 	}
 }
 
+//proposalChecker returns the function which checks a value proposed in round r.
+//A value may be proposed in a round only if it may have been proposed in the previous round and that round was unlocked (2f+1 No votes),
+//or if it is the locked value of the previous leader. Its validation ends with the corresponding signatures, one for each of these rounds.
+func proposalChecker(ID []byte, r uint32, leaders []uint32) func(*HonestParty, []byte, uint32, []byte, []byte) error {
+	return func(p *HonestParty, _ []byte, _ uint32, value []byte, validation []byte) error {
+		suite := kyberbls.NewBLS12381Suite()
+		blsScheme := bls.NewSchemeOnG1(suite)
+		sigLen := suite.G1().PointLen()
+		for k := r; k > 0; k-- {
+			IDk := append(append([]byte{}, ID...), utils.Uint32ToBytes(k-1)...)
+
+			//the previous round was unlocked: verify("Unlock"||ID||k-1)
+			if cut := len(validation) - sigLen; cut >= 0 {
+				sm := append([]byte("Unlock"), IDk...)
+				if blsScheme.Verify(p.SigPK.Commit(), sm, validation[cut:]) == nil {
+					validation = validation[:cut]
+					continue
+				}
+			}
+
+			//the value was locked in the previous round: verify("Echo"||ID||k-1||l||1||h)
+			h := sha3.Sum512(value)
+			sm := append([]byte("Echo"), IDk...)
+			sm = append(sm, utils.Uint32ToBytes(leaders[k-1])...)
+			sm = append(sm, 1)
+			sm = append(sm, h[:]...)
+			return blsScheme.Verify(p.SigPK.Commit(), sm, validation)
+		}
+		return nil
+	}
+}
+
 func election(ctx context.Context, p *HonestParty, IDr []byte, doneFlageChannel chan bool) {
 	select {
 	case <-ctx.Done():
diff --git a/internal/party/spb.go b/internal/party/spb.go
index 7d8ac93..46f0b71 100644
--- a/internal/party/spb.go
+++ b/internal/party/spb.go
@@ -35,7 +35,8 @@ func SPBSender(ctx context.Context, p *HonestParty, ID []byte, value []byte, val
 }
 
 //SPBReceiver is run by the receiver of a instance of strong provable broadcast
-func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte) ([]byte, []byte, bool) {
+//checkValue decides whether a value is acceptable in the first broadcast
+func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, checkValue func(*HonestParty, []byte, uint32, []byte, []byte) error) ([]byte, []byte, bool) {
 	var buf1, buf2 bytes.Buffer
 	buf1.Write(ID)
 	buf1.WriteByte(1)
@@ -44,7 +45,7 @@ func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte)
 	ID1 := buf1.Bytes()
 	ID2 := buf2.Bytes()
 
-	Receiver(ctx, p, sender, ID1, nil)
+	Receiver(ctx, p, sender, ID1, checkValue)
 	value, sig, ok := Receiver(ctx, p, sender, ID2, validator)
 	if !ok {
 		return nil, nil, false
-- 
2.43.0


From b10d4a2a340cf7dcd0254cfb51482a0916084be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 27/50] fix: handoff agrees only on sets of at least f+1
 certified contributions

---
 internal/party/ProactivizeAndShareDist.go | 22 ++++++++++++++++++++--
 internal/party/main_process.go            | 14 +++++++++++---
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 863341e..8f3654e 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -12,6 +12,25 @@ import (
 	"google.golang.org/protobuf/proto"
 )
 
+//validMVBAIn is the predicate of MVBA: at least t+1 distinct contributions, each with the signature of 2t+1 parties
+func (p *HonestParty) validMVBAIn(value []byte) bool {
+	var input protobuf.MVBAIN
+	if proto.Unmarshal(value, &input) != nil || len(input.J) != len(input.Sig) || uint32(len(input.J)) < p.F+1 {
+		return false
+	}
+	var included = make(map[uint32]bool)
+	for i, j := range input.J {
+		if j == 0 || j > p.N || included[j] {
+			return false
+		}
+		included[j] = true
+		if p.tblsScheme.VerifyRecovered(p.SigPK.Commit(), []byte(strconv.FormatUint(uint64(j), 10)), input.Sig[i]) != nil {
+			return false
+		}
+	}
+	return true
+}
+
 func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	p.ProactivizeStart = time.Now()
@@ -475,7 +494,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							MVBASent = true
 							//do not hold the mutexes during MVBA, Recover messages are still needed
 							go func() {
-								MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+								MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}, p.validMVBAIn) //temporary solution (MainProcess means smvba.MainProcess)
 							}()
 						}
 						mutexMVBAIn.Unlock()
@@ -489,7 +508,6 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	}
 
 	//Refresh
-	//TODO: implement MVBA's verification
 	MVBAResData := <-MVBAResChan
 	var MVBARes protobuf.MVBAIN
 	proto.Unmarshal(MVBAResData, &MVBARes)
diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index baf6667..5a96c81 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -7,6 +7,7 @@ forked from https://github.com/xygdys/Buada_BFT
 import (
 	"bytes"
 	"context"
+	"errors"
 	"sync"
 
 	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
@@ -19,7 +20,8 @@ import (
 )
 
 //MainProcess is the main process of smvba instances
-func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []byte {
+//If a predicate is given, only the values which satisfy all of them can be output
+func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte, predicate ...func(value []byte) bool) []byte {
 	haltChannel := make(chan []byte, 1) //control all round
 	ctx, cancel := context.WithCancel(context.Background())
 	leaders := []uint32{} //leaders of the previous rounds
@@ -56,7 +58,7 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 			IDrj = append(IDrj, buf.Bytes())
 		}
 
-		checkValue := proposalChecker(ID, r, leaders)
+		checkValue := proposalChecker(ID, r, leaders, predicate)
 		for i := uint32(0); i < p.N; i++ {
 			go func(j uint32) {
 				value, sig, ok := SPBReceiver(spbCtx, p, j, IDrj[j], checkValue)
@@ -157,8 +159,14 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 //proposalChecker returns the function which checks a value proposed in round r.
 //A value may be proposed in a round only if it may have been proposed in the previous round and that round was unlocked (2f+1 No votes),
 //or if it is the locked value of the previous leader. Its validation ends with the corresponding signatures, one for each of these rounds.
-func proposalChecker(ID []byte, r uint32, leaders []uint32) func(*HonestParty, []byte, uint32, []byte, []byte) error {
+func proposalChecker(ID []byte, r uint32, leaders []uint32, predicate []func(value []byte) bool) func(*HonestParty, []byte, uint32, []byte, []byte) error {
 	return func(p *HonestParty, _ []byte, _ uint32, value []byte, validation []byte) error {
+		for i := range predicate {
+			if !predicate[i](value) {
+				return errors.New("the value does not satisfy the predicate")
+			}
+		}
+
 		suite := kyberbls.NewBLS12381Suite()
 		blsScheme := bls.NewSchemeOnG1(suite)
 		sigLen := suite.G1().PointLen()
-- 
2.43.0


From 7f61a4604b55139dfa516693cb98fd2db14c845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 28/50] fix: a failed or misbehaving peer ends its own
 connection, not the whole process

---
 pkg/core/receive.go | 24 ++++++++++++++++--------
 pkg/core/send.go    | 14 +++++++-------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/pkg/core/receive.go b/pkg/core/receive.go
index 67e775a..5a24f98 100644
--- a/pkg/core/receive.go
+++ b/pkg/core/receive.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"log"
@@ -45,23 +46,30 @@ func MakeReceiveChannel(port string) chan *protobuf.Message {
 			}
 			//Once connect to a node, make a sub-handle func to handle this connection
 			go func(conn *net.TCPConn, channel chan *protobuf.Message) {
+				//a broken connection or a malformed message only ends this connection
+				defer conn.Close()
 				for {
 					//Receive bytes
 					lengthBuf := make([]byte, 4)
 					_, err1 := io.ReadFull(conn, lengthBuf)
+					if err1 != nil {
+						log.Println("The receive channel has broken down", err1)
+						return
+					}
 					length := utils.BytesToInt(lengthBuf)
-					buf := make([]byte, length)
-					_, err2 := io.ReadFull(conn, buf)
-					if err1 != nil || err2 != nil {
-						fmt.Printf("The receive channel has broken down, err1: %v, err2:%v\n", err1, err2)
-						log.Fatalln("The receive channel has broken down", err1, err2)
+					//the memory grows with the bytes received, not with the announced length
+					buf := new(bytes.Buffer)
+					_, err2 := io.CopyN(buf, conn, int64(length))
+					if err2 != nil {
+						log.Println("The receive channel has broken down", err2)
+						return
 					}
 					//Do Unmarshal
 					var m protobuf.Message
-					err3 := proto.Unmarshal(buf, &m)
+					err3 := proto.Unmarshal(buf.Bytes(), &m)
 					if err3 != nil {
-						fmt.Printf("Unmarshal error: %v\n", err3)
-						log.Fatalln(err3)
+						log.Println("Unmarshal error:", err3)
+						return
 					}
 					//Push protobuf.Message to receivechannel
 					(channel) <- &m
diff --git a/pkg/core/send.go b/pkg/core/send.go
index e31d3e7..b9c1069 100644
--- a/pkg/core/send.go
+++ b/pkg/core/send.go
@@ -49,13 +49,13 @@ func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
 			length := len(byt)
 			_, err2 := conn.Write(utils.IntToBytes(length))
 			_, err3 := conn.Write(byt)
-			if err2 != nil {
-				fmt.Printf("Send message ERROR:%v\n", err2)
-				log.Fatalln("The send channel has broken down!", err2)
-			}
-			if err3 != nil {
-				fmt.Printf("Send message ERROR:%v\n", err3)
-				log.Fatalln("The send channel has broken down!", err3)
+			if err2 != nil || err3 != nil {
+				//this peer has failed, discard the messages to it and go on with the others
+				log.Println("The send channel has broken down!", err2, err3)
+				conn.Close()
+				for range channel {
+				}
+				return
 			}
 		}
 	}(conn, sendChannel)
-- 
2.43.0


From 6ade3793649f6d8aff639ad2b22d88efec0748d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 29/50] fix: AsFr of the herumi back end handles integers of
 2^63 and more

---
 internal/bls/bignum_hbls.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/bls/bignum_hbls.go b/internal/bls/bignum_hbls.go
index 30a72a1..162842b 100755
--- a/internal/bls/bignum_hbls.go
+++ b/internal/bls/bignum_hbls.go
@@ -7,6 +7,7 @@ forked from https://github.com/protolambda/go-kzg at Feb 2,2023
 package bls
 
 import (
+	"encoding/binary"
 	"math/big"
 	"unsafe"
 
@@ -60,7 +61,9 @@ func CopyFr(dst *Fr, v *Fr) {
 }
 
 func AsFr(dst *Fr, i uint64) {
-	(*hbls.Fr)(dst).SetInt64(int64(i))
+	var data [8]byte
+	binary.LittleEndian.PutUint64(data[:], i)
+	(*hbls.Fr)(dst).SetLittleEndian(data[:])
 }
 
 func FrStr(b *Fr) string {
-- 
2.43.0


From 3e9318a673d215c8d8cfd8ed1443c3f315c050c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 30/50] fix: FrTo32 pads scalars below 2^248 instead of
 crashing or misplacing their bytes

---
 internal/bls/bignum_hol256.go | 4 ++--
 internal/bls/bignum_pure.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/bls/bignum_hol256.go b/internal/bls/bignum_hol256.go
index 6873c39..1f13db9 100755
--- a/internal/bls/bignum_hol256.go
+++ b/internal/bls/bignum_hol256.go
@@ -48,13 +48,13 @@ func FrFrom32(dst *Fr, v [32]byte) (ok bool) {
 
 // FrTo32 serializes a fr number to 32 bytes. Encoded little-endian.
 func FrTo32(src *Fr) (v [32]byte) {
-	b := (*u256.Int)(src).Bytes()
+	b := (*u256.Int)(src).Bytes32()
 	last := len(b) - 1
 	// reverse endianness, u256.Int outputs big-endian bytes
 	for i := 0; i < 16; i++ {
 		b[i], b[last-i] = b[last-i], b[i]
 	}
-	copy(v[:], b)
+	copy(v[:], b[:])
 	return
 }
 
diff --git a/internal/bls/bignum_pure.go b/internal/bls/bignum_pure.go
index 40c74c8..10c5bb3 100755
--- a/internal/bls/bignum_pure.go
+++ b/internal/bls/bignum_pure.go
@@ -36,7 +36,7 @@ func FrFrom32(dst *Fr, v [32]byte) (ok bool) {
 
 // FrTo32 serializes a fr number to 32 bytes. Encoded little-endian.
 func FrTo32(src *Fr) (v [32]byte) {
-	b := (*big.Int)(src).Bytes()
+	b := (*big.Int)(src).FillBytes(make([]byte, 32))
 	last := len(b) - 1
 	// reverse endianness, u256.Int outputs big-endian bytes
 	for i := 0; i < 16; i++ {
-- 
2.43.0


From 7e52f753d5a21034c3d477f4949ce76a34d08b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 31/50] fix: the herumi back end rejects non-canonical
 encodings of infinity

---
 internal/bls/bls_hbls.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/bls/bls_hbls.go b/internal/bls/bls_hbls.go
index 88cb9fe..8974c7a 100755
--- a/internal/bls/bls_hbls.go
+++ b/internal/bls/bls_hbls.go
@@ -7,6 +7,8 @@ forked from https://github.com/protolambda/go-kzg at Feb 2,2023
 package bls
 
 import (
+	"bytes"
+	"errors"
 	"fmt"
 	hbls "github.com/herumi/bls-eth-go-binary/bls"
 	"strings"
@@ -126,6 +128,10 @@ func FromCompressedG1(v []byte) (*G1Point, error) {
 	if err := pub.Deserialize(v); err != nil {
 		return nil, err
 	}
+	// Herumi ignores trailing bytes of an encoding of infinity
+	if !bytes.Equal(pub.Serialize(), v) {
+		return nil, errors.New("encoding of the G1 point is not canonical")
+	}
 	p := hbls.CastFromPublicKey(&pub)
 	return (*G1Point)(p), nil
 }
@@ -139,6 +145,10 @@ func FromCompressedG2(v []byte) (*G2Point, error) {
 	if err := sig.Deserialize(v); err != nil {
 		return nil, err
 	}
+	// Herumi ignores trailing bytes of an encoding of infinity
+	if !bytes.Equal(sig.Serialize(), v) {
+		return nil, errors.New("encoding of the G2 point is not canonical")
+	}
 	p := hbls.CastFromSign(&sig)
 	return (*G2Point)(p), nil
 }
-- 
2.43.0


From bcd84b18b9f7171a31ebe1e0e76027c38d4bfd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 32/50] fix: DASFFTExtension uses the domain of the extended
 data, not the widest one

---
 internal/polycommit/das_extension.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/polycommit/das_extension.go b/internal/polycommit/das_extension.go
index c493a48..16a876e 100755
--- a/internal/polycommit/das_extension.go
+++ b/internal/polycommit/das_extension.go
@@ -75,7 +75,8 @@ func (fs *FFTSettings) DASFFTExtension(vals []bls.Fr) {
 	if uint64(len(vals))*2 > fs.MaxWidth {
 		panic("domain too small for extending requested values")
 	}
-	fs.dASFFTExtension(vals, 1)
+	// the values lie on a domain of this size, which may be smaller than the widest one
+	fs.dASFFTExtension(vals, fs.MaxWidth/(2*uint64(len(vals))))
 	// The above function didn't perform the divide by 2 on every layer.
 	// So now do it all at once, by dividing by 2**depth (=length).
 	var invLen bls.Fr
-- 
2.43.0


From 4c7070b090b34a1afec694b7e61b2c00dd467122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 33/50] fix: bit reversal rejects lengths that are not powers
 of two

---
 internal/polycommit/reverse_bit_order.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/polycommit/reverse_bit_order.go b/internal/polycommit/reverse_bit_order.go
index cfbccea..ae75e70 100755
--- a/internal/polycommit/reverse_bit_order.go
+++ b/internal/polycommit/reverse_bit_order.go
@@ -88,7 +88,7 @@ func reverseBitsLimited(length uint32, value uint32) uint32 {
 }
 
 func reverseBitOrder(length uint32, swap func(i, j uint32)) {
-	if !(length > 0 || (length&(length-1) == 0)) {
+	if length > 0 && length&(length-1) != 0 {
 		panic("length is not a power of 2")
 	}
 	// swap bits:
-- 
2.43.0


From 638e8d48fba81e618956130e11253ee0fa72a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 34/50] fix: zero is not a power of two, so empty transforms
 are an error instead of a division by zero

---
 internal/bls/globals.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/bls/globals.go b/internal/bls/globals.go
index 79d5d99..6f53ffd 100755
--- a/internal/bls/globals.go
+++ b/internal/bls/globals.go
@@ -73,7 +73,7 @@ func initGlobals() {
 }
 
 func IsPowerOfTwo(v uint64) bool {
-	return v&(v-1) == 0
+	return v != 0 && v&(v-1) == 0
 }
 
 func EvalPolyAtUnoptimized(dst *Fr, coeffs []Fr, x *Fr) {
-- 
2.43.0


From 7289ee196b47f757bd4d015ed6c8cafa49febdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 35/50] fix: dividing a polynomial by a longer one gives the
 zero quotient instead of a crash

---
 internal/polycommit/poly.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/polycommit/poly.go b/internal/polycommit/poly.go
index e88a592..1339c58 100755
--- a/internal/polycommit/poly.go
+++ b/internal/polycommit/poly.go
@@ -22,6 +22,9 @@ func polyLongDiv(dividend []bls.Fr, divisor []bls.Fr) []bls.Fr {
 	aPos := len(a) - 1
 	bPos := len(divisor) - 1
 	diff := aPos - bPos
+	if diff < 0 { // the quotient is zero
+		return []bls.Fr{}
+	}
 	out := make([]bls.Fr, diff+1, diff+1)
 	for diff >= 0 {
 		quot := &out[diff]
-- 
2.43.0


From 8b1cfab45fe9b592cf495e8302fe8cdb40b3786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 36/50] fix: ComputeProofMulti divides by X^n - x^n, not by X^n

---
 internal/polycommit/kzg_multi_proofs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/polycommit/kzg_multi_proofs.go b/internal/polycommit/kzg_multi_proofs.go
index dca9c9c..7aa705b 100755
--- a/internal/polycommit/kzg_multi_proofs.go
+++ b/internal/polycommit/kzg_multi_proofs.go
@@ -22,6 +22,7 @@ func (ks *KZGSettings) ComputeProofMulti(poly []bls.Fr, x uint64, n uint64) *bls
 	// TODO: inefficient, could use squaring, or maybe BLS lib offers a power method?
 	// TODO: for small ranges, maybe compute pow(x, n, mod) in uint64?
 	var xPowN, tmp bls.Fr
+	bls.CopyFr(&xPowN, &bls.ONE)
 	for i := uint64(0); i < n; i++ {
 		bls.MulModFr(&tmp, &xPowN, &xFr)
 		bls.CopyFr(&xPowN, &tmp)
-- 
2.43.0


From 83e12919293d6323c79c62f21ddaf1e27c56ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 37/50] fix: FK20 for a single coefficient or chunk does not
 run out of range

---
 internal/polycommit/fk20_single.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/polycommit/fk20_single.go b/internal/polycommit/fk20_single.go
index aca81ed..61f54de 100755
--- a/internal/polycommit/fk20_single.go
+++ b/internal/polycommit/fk20_single.go
@@ -97,7 +97,7 @@ func (ks *KZGSettings) toeplitzCoeffsStepStrided(polynomial []bls.Fr, offset uin
 	// [last poly item] + [0]*(n+1) + [poly items except first and last]
 	toeplitzCoeffs := make([]bls.Fr, k2, k2)
 	bls.CopyFr(&toeplitzCoeffs[0], &polynomial[n-1-offset])
-	for i := uint64(1); i <= k+1; i++ {
+	for i := uint64(1); i <= k+1 && i < k2; i++ {
 		bls.CopyFr(&toeplitzCoeffs[i], &bls.ZERO)
 	}
 	for i, j := k+2, 2*stride-offset-1; i < k2; i, j = i+1, j+stride {
@@ -113,7 +113,7 @@ func (ks *KZGSettings) toeplitzCoeffsStep(polynomial []bls.Fr) []bls.Fr {
 	// [last poly item] + [0]*(n+1) + [poly items except first and last]
 	toeplitzCoeffs := make([]bls.Fr, n2, n2)
 	bls.CopyFr(&toeplitzCoeffs[0], &polynomial[n-1])
-	for i := uint64(1); i <= n+1; i++ {
+	for i := uint64(1); i <= n+1 && i < n2; i++ {
 		bls.CopyFr(&toeplitzCoeffs[i], &bls.ZERO)
 	}
 	for i, j := n+2, 1; i < n2; i, j = i+1, j+1 {
-- 
2.43.0


From 8e4cf5bc2da0986c6382448fb5308bfd371e3040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 38/50] fix: FK20Multi works with chunks longer than one
 coefficient

---
 internal/polycommit/fk20_multi.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/polycommit/fk20_multi.go b/internal/polycommit/fk20_multi.go
index b29c7ef..708f7d6 100755
--- a/internal/polycommit/fk20_multi.go
+++ b/internal/polycommit/fk20_multi.go
@@ -33,8 +33,9 @@ func (ks *FK20MultiSettings) FK20Multi(polynomial []bls.Fr) []bls.G1Point {
 			ks.MaxWidth, n))
 	}
 
-	hExtFFT := make([]bls.G1Point, n2, n2)
-	for i := uint64(0); i < n2; i++ {
+	k2 := n / ks.chunkLen * 2
+	hExtFFT := make([]bls.G1Point, k2, k2)
+	for i := uint64(0); i < k2; i++ {
 		bls.CopyG1(&hExtFFT[i], &bls.ZeroG1)
 	}
 
@@ -42,7 +43,7 @@ func (ks *FK20MultiSettings) FK20Multi(polynomial []bls.Fr) []bls.G1Point {
 	for i := uint64(0); i < ks.chunkLen; i++ {
 		toeplitzCoeffs := ks.toeplitzCoeffsStepStrided(polynomial, i, ks.chunkLen)
 		hExtFFTFile := ks.ToeplitzPart2(toeplitzCoeffs, ks.xExtFFTFiles[i])
-		for j := uint64(0); j < n2; j++ {
+		for j := uint64(0); j < k2; j++ {
 			bls.AddG1(&tmp, &hExtFFT[j], &hExtFFTFile[j])
 			bls.CopyG1(&hExtFFT[j], &tmp)
 		}
-- 
2.43.0


From 228c7c715ea9481734fa63f0775167f4cdebc21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 39/50] fix: the vanishing polynomial of no positions is one,
 so recovery works when nothing is missing

---
 internal/polycommit/zero_poly.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/polycommit/zero_poly.go b/internal/polycommit/zero_poly.go
index 3cc4ab7..e8d15a3 100755
--- a/internal/polycommit/zero_poly.go
+++ b/internal/polycommit/zero_poly.go
@@ -118,8 +118,16 @@ func (fs *FFTSettings) reduceLeaves(scratch []bls.Fr, dst []bls.Fr, ps [][]bls.F
 //
 // Also calculates the FFT (the "evaluation polynomial").
 func (fs *FFTSettings) ZeroPolyViaMultiplication(missingIndices []uint64, length uint64) ([]bls.Fr, []bls.Fr) {
-	if len(missingIndices) == 0 {
-		return make([]bls.Fr, length, length), make([]bls.Fr, length, length)
+	if len(missingIndices) == 0 { // the product over nothing is one
+		zeroEval, zeroPoly := make([]bls.Fr, length, length), make([]bls.Fr, length, length)
+		for i := range zeroEval {
+			bls.CopyFr(&zeroEval[i], &bls.ONE)
+			bls.CopyFr(&zeroPoly[i], &bls.ZERO)
+		}
+		if length > 0 {
+			bls.CopyFr(&zeroPoly[0], &bls.ONE)
+		}
+		return zeroEval, zeroPoly
 	}
 	if length > fs.MaxWidth {
 		panic("domain too small for requested length")
-- 
2.43.0


From 5ac3c357cee88e1c46f0d31c8f980bd6231ce3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 40/50] fix: recovery from too few samples or an impossible
 number of them is an error, not a crash

---
 internal/polycommit/legacy_recovery.go      |  4 +++-
 internal/polycommit/recover_from_samples.go | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/polycommit/legacy_recovery.go b/internal/polycommit/legacy_recovery.go
index 6e6dec6..2bb42cb 100755
--- a/internal/polycommit/legacy_recovery.go
+++ b/internal/polycommit/legacy_recovery.go
@@ -172,7 +172,9 @@ func (fs *FFTSettings) ErasureCodeRecover(vals []*bls.Fr) ([]bls.Fr, error) {
 			positions = append(positions, i)
 		}
 	}
-	// TODO: handle len(positions)==0 case
+	if err := fs.checkRecoverable(uint64(len(vals)), uint64(len(positions))); err != nil {
+		return nil, err
+	}
 	z := fs._zPoly(positions, fs.MaxWidth/uint64(len(vals)))
 	//DebugFrs("z", z)
 	zVals, err := fs.FFT(z, false)
diff --git a/internal/polycommit/recover_from_samples.go b/internal/polycommit/recover_from_samples.go
index a51d09c..ba00ce2 100755
--- a/internal/polycommit/recover_from_samples.go
+++ b/internal/polycommit/recover_from_samples.go
@@ -42,6 +42,17 @@ func (fs *FFTSettings) UnshiftPoly(poly []bls.Fr) {
 	}
 }
 
+// checkRecoverable tells whether a vector of this many samples can be recovered at all
+func (fs *FFTSettings) checkRecoverable(length uint64, missing uint64) error {
+	if !bls.IsPowerOfTwo(length) || length > fs.MaxWidth {
+		return fmt.Errorf("cannot recover %d samples: not a power of two up to %d", length, fs.MaxWidth)
+	}
+	if missing > length/2 {
+		return fmt.Errorf("cannot recover: %d of %d samples are missing", missing, length)
+	}
+	return nil
+}
+
 func (fs *FFTSettings) RecoverPolyFromSamples(samples []*bls.Fr, zeroPolyFn ZeroPolyFn) ([]bls.Fr, error) {
 	// TODO: using a single additional temporary array, all the FFTs can run in-place.
 
@@ -52,6 +63,10 @@ func (fs *FFTSettings) RecoverPolyFromSamples(samples []*bls.Fr, zeroPolyFn Zero
 		}
 	}
 
+	if err := fs.checkRecoverable(uint64(len(samples)), uint64(len(missingIndices))); err != nil {
+		return nil, err
+	}
+
 	zeroEval, zeroPoly := zeroPolyFn(missingIndices, uint64(len(samples)))
 
 	for i, s := range samples {
-- 
2.43.0


From 644560f8975599817ddee381c22b87f0c91ad08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 41/50] fix: ErasureCodeRecover works when few or no samples
 are missing

---
 internal/polycommit/legacy_recovery.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/polycommit/legacy_recovery.go b/internal/polycommit/legacy_recovery.go
index 2bb42cb..d5f0836 100755
--- a/internal/polycommit/legacy_recovery.go
+++ b/internal/polycommit/legacy_recovery.go
@@ -176,6 +176,10 @@ func (fs *FFTSettings) ErasureCodeRecover(vals []*bls.Fr) ([]bls.Fr, error) {
 		return nil, err
 	}
 	z := fs._zPoly(positions, fs.MaxWidth/uint64(len(vals)))
+	// its values are needed at all positions
+	for len(z) < len(vals) {
+		z = append(z, bls.ZERO)
+	}
 	//DebugFrs("z", z)
 	zVals, err := fs.FFT(z, false)
 	if err != nil {
-- 
2.43.0


From fbab7829b2f2c528acf7ad92e113f1e5c1de2458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 42/50] fix: EvaluatePolyInEvaluationForm is right at the
 points of the domain, too

---
 internal/bls/globals.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/bls/globals.go b/internal/bls/globals.go
index 6f53ffd..6fb7e1f 100755
--- a/internal/bls/globals.go
+++ b/internal/bls/globals.go
@@ -111,6 +111,14 @@ func EvaluatePolyInEvaluationForm(yFr *Fr, poly []Fr, x *Fr, rootsOfUnity []Fr,
 		panic(fmt.Errorf("expected roots of unity (len %d >> %d == %d) to match polynomial size (len %d)", len(rootsOfUnity), scale, len(rootsOfUnity)>>scale, len(poly)))
 	}
 
+	// at a point of the domain, the formula below would divide by zero
+	for i := range poly {
+		if EqualFr(x, &rootsOfUnity[i<<scale]) {
+			CopyFr(yFr, &poly[i])
+			return
+		}
+	}
+
 	width := big.NewInt(int64(len(poly)))
 	var widthFr Fr
 	AsFr(&widthFr, uint64(len(poly)))
-- 
2.43.0


From f93301152bb18d00500438199fbb8b5e0b507f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 43/50] fix: RBC.go keeps the line endings it had before the
 repairs

---
 internal/party/RBC.go | 608 +++++++++++++++++++++---------------------
 1 file changed, 304 insertions(+), 304 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 559b297..1347ac9 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -1,304 +1,304 @@
-package party
-
-import (
-	"bytes"
-	"crypto/sha256"
-	"log"
-	"sync"
-
-	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
-	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
-	"github.com/klauspost/reedsolomon"
-	"google.golang.org/protobuf/proto"
-)
-
-// received message shard (RS code) in RBC
-type mReceived struct {
-	j  int
-	mj []byte
-}
-
-//RBC propose
-func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
-	//encapsulate
-	data, _ := proto.Marshal(M)
-	err := p.Broadcast(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data})
-	if err != nil {
-		log.Printf("[party %v] multicast RBCPropose error: %v, RBC instance ID: %s", p.PID, err, ID)
-	}
-	//log.Printf("[RBC][Party %v] broadcast RBCPropose message, instance ID: %s\n", p.PID, string(ID))
-}
-
-func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32) {
-	//encapsulate
-	data, _ := proto.Marshal(M)
-	p.BroadcastExclude(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data}, pid)
-	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
-}
-
-//RBCReceive runs an RBC instance and returns the delivered message.
-//If the proposer of this instance is given, proposals from any other party are ignored.
-func (p *HonestParty) RBCReceive(ID []byte, proposer ...uint32) *protobuf.Message {
-	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
-	var mLen int                 // the length of M_i
-	//here we ignore the validator function P(.)
-
-	//map (hash,M) to counter. Key value doesn't support []byte, so we transform it to string type.
-	var EchoMessageMap = make(map[string]map[string]int)
-
-	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
-	var T = make(map[string][]mReceived)
-
-	var isReadySent = false
-	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
-	var mutexEchoMap sync.Mutex
-	var mutexReadyMap sync.Mutex
-
-	//RSDecChan delivers a hash with at least 2t+1 = n-t matching shards, once for each additional shard
-	var RSDecChan = make(chan []byte, p.N)
-
-	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
-	var hasReceivedEcho = make(map[uint32]bool)
-	for i := uint32(0); i < p.N; i++ {
-		hasReceivedReady[i] = false
-		hasReceivedEcho[i] = false
-	}
-
-	//broadcast RBCReady at most once, the caller must hold the mutex
-	sendReady := func(hash string, mi string) {
-		if isReadySent {
-			return
-		}
-		isReadySent = true
-		readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
-		err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-		if err != nil {
-			log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
-		}
-		// log.Printf("[party %v] multicast RBCReady, RBC instance ID: %s", p.PID, ID)
-	}
-
-	//handle RBCPropose message
-	go func() {
-		m := <-p.GetMessage("RBCPropose", ID)
-		for len(proposer) > 0 && m.Sender != proposer[0] {
-			m = <-p.GetMessage("RBCPropose", ID)
-		}
-		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
-		M := m.Data
-		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
-		hLocal := sha256.New()
-		hLocal.Write(M)
-
-		//encode
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		shards, errSplit := RSEncoder.Split(M)
-		if errSplit != nil {
-			log.Printf("[party %v] cannot encode the RBCPropose message from [party %v]: %v, RBC instance ID: %s", p.PID, m.Sender, errSplit, ID)
-			return
-		}
-		RSEncoder.Encode(shards)
-		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
-		copy(M1, shards)
-		for j := uint32(0); j < p.N; j++ {
-			//encapsulate, append the length of M at the end of hash
-			EchoData, _ := proto.Marshal(&protobuf.RBCEcho{Hash: append(hLocal.Sum(nil), utils.IntToBytes(mLen)...), M: shards[j]})
-			p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, j)
-			// log.Printf("[party %v] sends RBCEcho to [party %v], RBC instance ID: %s", p.PID, j, ID)
-
-			/*
-				// This block is used for RBC_test when a party does not receive 2t+1 ECHO messages
-				// In this case, the algorithm sends RBCReady message through line 15 upon receiving
-				// t+1 RBCReady messages and t+1 matching RBCEcho messages
-				if p.PID == 0 || p.PID == 1 {
-					if index != uint32(2) {
-						p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
-					}
-				} else {
-					p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
-				}
-			*/
-		}
-
-	}()
-
-	//handle Echo Message, line 11-12, Algo 4 in RBC paper
-	go func() {
-		for {
-			m := <-p.GetMessage("RBCEcho", ID)
-			//count at most one RBCEcho from each party
-			if m.Sender >= p.N || hasReceivedEcho[m.Sender] {
-				continue
-			}
-			hasReceivedEcho[m.Sender] = true
-			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
-			var payloadMessage protobuf.RBCEcho
-			proto.Unmarshal(m.Data, &payloadMessage)
-			hash := string(payloadMessage.Hash)
-			mi := string(payloadMessage.M)
-
-			mutexEchoMap.Lock()
-			_, ok1 := EchoMessageMap[hash]
-			if ok1 {
-				//ok1 denotes that the map of hash exists
-				counter, ok2 := EchoMessageMap[hash][mi]
-				if ok2 {
-					//ok2 denotes that the map of (hash,M) exists, then increase the counter
-					EchoMessageMap[hash][mi] = counter + 1
-				} else {
-					//else establish the map of (hash,M) and set it as 1
-					EchoMessageMap[hash][mi] = 1
-				}
-			} else {
-				//else establish the map of (hash,M) and set it as 1
-				EchoMessageMap[hash] = make(map[string]int)
-				EchoMessageMap[hash][mi] = 1
-			}
-
-			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4),
-			//or t+1 matching RBCEcho messages in addition to t+1 RBCReady messages with the same hash (line 13-15, Algo 4)
-			mutex.Lock()
-			mutexReadyMap.Lock()
-			readyCounter := uint32(len(T[hash]))
-			mutexReadyMap.Unlock()
-			echoCounter := uint32(EchoMessageMap[hash][mi])
-			if echoCounter >= p.N-p.F || (echoCounter >= p.F+1 && readyCounter >= p.F+1) {
-				sendReady(hash, mi)
-			}
-			readySent := isReadySent
-			mutex.Unlock() //TODO: move this unlock into if statement
-			mutexEchoMap.Unlock()
-			//finish this goroutine when RBCReady is sent
-			if readySent {
-				break
-			}
-		}
-	}()
-
-	//handle RBCReady messages
-	go func() {
-		for {
-			m := <-p.GetMessage("RBCReady", ID)
-			if m.Sender >= p.N || hasReceivedReady[m.Sender] {
-				continue
-			} else {
-				hasReceivedReady[m.Sender] = true
-			}
-			// log.Printf("[party %v] receive RBCReady message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
-			var payloadMessage protobuf.RBCReady
-			proto.Unmarshal(m.Data, &payloadMessage)
-			hash := payloadMessage.Hash
-			hashString := string(hash)
-			mJ := payloadMessage.M
-			j := m.Sender //sender's pid, i.e., the index of the sender
-
-			mutexReadyMap.Lock()
-			//avoid the replay attack
-
-			//
-			_, ok := T[hashString]
-			if ok {
-				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
-			} else {
-				T[hashString] = make([]mReceived, 0)
-				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
-			}
-
-			// upon receiving |T| >= 2t+1 = n-t
-			if uint32(len(T[string(hash)])) >= p.N-p.F {
-				RSDecChan <- hash
-			}
-			readyCounter := uint32(len(T[hashString]))
-			mutexReadyMap.Unlock()
-
-			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
-			//the t+1 RBCEcho messages must match the hash of the t+1 RBCReady messages
-			if readyCounter >= p.F+1 {
-				mutexEchoMap.Lock()
-				mutex.Lock()
-				for mi, counter := range EchoMessageMap[hashString] {
-					if uint32(counter) >= p.F+1 {
-						sendReady(hashString, mi)
-						break
-					}
-				}
-				mutex.Unlock()
-				mutexEchoMap.Unlock()
-			}
-
-			//FIXME: kill this for loop when the RBC message is reconstructed
-			// isRec := <-RecDone
-			// if isRec {
-			// 	break
-			// }
-		}
-	}()
-
-	//wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
-	//if some of them are wrong and the reconstruction fails, wait for one more shard
-	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
-	for r := uint32(0); r <= p.F; r++ {
-		hash := <-RSDecChan
-
-		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
-		mutexReadyMap.Lock()
-		copy(mReceivedTemp, T[string(hash)])
-		mutexReadyMap.Unlock()
-
-		mReconstructed, ok := p.rsDecode(mReceivedTemp, hash)
-		if ok {
-			var replyMessage protobuf.Message
-			proto.Unmarshal(mReconstructed, &replyMessage)
-			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
-			return &replyMessage
-		}
-	}
-	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
-	return nil
-}
-
-//rsDecode reconstructs the message which matches hash. Up to t of the received shards may be wrong,
-//so all the combinations of data shards are tried until one of them matches the hash.
-func (p *HonestParty) rsDecode(received []mReceived, hash []byte) ([]byte, bool) {
-	if len(hash) != 256/8+4 {
-		return nil, false
-	}
-	//the last several bytes in hash are the lenth of M' (see line 9, Algo 4 in RBC paper)
-	mLen := utils.BytesToInt(hash[256/8:])
-	dataShards := int(p.N - (p.F + 1))
-	shardLen := (mLen + dataShards - 1) / dataShards
-	RSEncoder, _ := reedsolomon.New(dataShards, int(p.F+1))
-
-	var M = make([][]byte, p.N)
-	var try func(next int, chosen int) ([]byte, bool)
-	try = func(next int, chosen int) ([]byte, bool) {
-		if chosen == dataShards {
-			shards := make([][]byte, p.N)
-			copy(shards, M)
-			if RSEncoder.ReconstructData(shards) != nil {
-				return nil, false
-			}
-			//parse the shards and remove the padding zeros
-			var mReconstructed = make([]byte, 0)
-			for i := 0; i < dataShards; i++ {
-				mReconstructed = append(mReconstructed, shards[i]...)
-			}
-			mReconstructed = mReconstructed[0:mLen]
-			hNew := sha256.Sum256(mReconstructed)
-			return mReconstructed, bytes.Equal(hNew[:], hash[:256/8])
-		}
-		for i := next; i <= len(received)-(dataShards-chosen); i++ {
-			if shardLen == 0 || len(received[i].mj) != shardLen {
-				continue
-			}
-			M[received[i].j] = received[i].mj
-			m, ok := try(i+1, chosen+1)
-			if ok {
-				return m, true
-			}
-			M[received[i].j] = nil
-		}
-		return nil, false
-	}
-	return try(0, 0)
-}
+package party
+
+import (
+	"bytes"
+	"crypto/sha256"
+	"log"
+	"sync"
+
+	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
+	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
+	"github.com/klauspost/reedsolomon"
+	"google.golang.org/protobuf/proto"
+)
+
+// received message shard (RS code) in RBC
+type mReceived struct {
+	j  int
+	mj []byte
+}
+
+//RBC propose
+func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
+	//encapsulate
+	data, _ := proto.Marshal(M)
+	err := p.Broadcast(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data})
+	if err != nil {
+		log.Printf("[party %v] multicast RBCPropose error: %v, RBC instance ID: %s", p.PID, err, ID)
+	}
+	//log.Printf("[RBC][Party %v] broadcast RBCPropose message, instance ID: %s\n", p.PID, string(ID))
+}
+
+func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32) {
+	//encapsulate
+	data, _ := proto.Marshal(M)
+	p.BroadcastExclude(&protobuf.Message{Type: "RBCPropose", Sender: p.PID, Id: ID, Data: data}, pid)
+	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
+}
+
+//RBCReceive runs an RBC instance and returns the delivered message.
+//If the proposer of this instance is given, proposals from any other party are ignored.
+func (p *HonestParty) RBCReceive(ID []byte, proposer ...uint32) *protobuf.Message {
+	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
+	var mLen int                 // the length of M_i
+	//here we ignore the validator function P(.)
+
+	//map (hash,M) to counter. Key value doesn't support []byte, so we transform it to string type.
+	var EchoMessageMap = make(map[string]map[string]int)
+
+	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
+	var T = make(map[string][]mReceived)
+
+	var isReadySent = false
+	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
+	var mutexEchoMap sync.Mutex
+	var mutexReadyMap sync.Mutex
+
+	//RSDecChan delivers a hash with at least 2t+1 = n-t matching shards, once for each additional shard
+	var RSDecChan = make(chan []byte, p.N)
+
+	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
+	var hasReceivedEcho = make(map[uint32]bool)
+	for i := uint32(0); i < p.N; i++ {
+		hasReceivedReady[i] = false
+		hasReceivedEcho[i] = false
+	}
+
+	//broadcast RBCReady at most once, the caller must hold the mutex
+	sendReady := func(hash string, mi string) {
+		if isReadySent {
+			return
+		}
+		isReadySent = true
+		readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
+		err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
+		if err != nil {
+			log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
+		}
+		// log.Printf("[party %v] multicast RBCReady, RBC instance ID: %s", p.PID, ID)
+	}
+
+	//handle RBCPropose message
+	go func() {
+		m := <-p.GetMessage("RBCPropose", ID)
+		for len(proposer) > 0 && m.Sender != proposer[0] {
+			m = <-p.GetMessage("RBCPropose", ID)
+		}
+		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
+		M := m.Data
+		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
+		hLocal := sha256.New()
+		hLocal.Write(M)
+
+		//encode
+		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
+		shards, errSplit := RSEncoder.Split(M)
+		if errSplit != nil {
+			log.Printf("[party %v] cannot encode the RBCPropose message from [party %v]: %v, RBC instance ID: %s", p.PID, m.Sender, errSplit, ID)
+			return
+		}
+		RSEncoder.Encode(shards)
+		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
+		copy(M1, shards)
+		for j := uint32(0); j < p.N; j++ {
+			//encapsulate, append the length of M at the end of hash
+			EchoData, _ := proto.Marshal(&protobuf.RBCEcho{Hash: append(hLocal.Sum(nil), utils.IntToBytes(mLen)...), M: shards[j]})
+			p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, j)
+			// log.Printf("[party %v] sends RBCEcho to [party %v], RBC instance ID: %s", p.PID, j, ID)
+
+			/*
+				// This block is used for RBC_test when a party does not receive 2t+1 ECHO messages
+				// In this case, the algorithm sends RBCReady message through line 15 upon receiving
+				// t+1 RBCReady messages and t+1 matching RBCEcho messages
+				if p.PID == 0 || p.PID == 1 {
+					if index != uint32(2) {
+						p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
+					}
+				} else {
+					p.Send(&protobuf.Message{Type: "RBCEcho", Sender: p.PID, Id: ID, Data: EchoData}, index)
+				}
+			*/
+		}
+
+	}()
+
+	//handle Echo Message, line 11-12, Algo 4 in RBC paper
+	go func() {
+		for {
+			m := <-p.GetMessage("RBCEcho", ID)
+			//count at most one RBCEcho from each party
+			if m.Sender >= p.N || hasReceivedEcho[m.Sender] {
+				continue
+			}
+			hasReceivedEcho[m.Sender] = true
+			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
+			var payloadMessage protobuf.RBCEcho
+			proto.Unmarshal(m.Data, &payloadMessage)
+			hash := string(payloadMessage.Hash)
+			mi := string(payloadMessage.M)
+
+			mutexEchoMap.Lock()
+			_, ok1 := EchoMessageMap[hash]
+			if ok1 {
+				//ok1 denotes that the map of hash exists
+				counter, ok2 := EchoMessageMap[hash][mi]
+				if ok2 {
+					//ok2 denotes that the map of (hash,M) exists, then increase the counter
+					EchoMessageMap[hash][mi] = counter + 1
+				} else {
+					//else establish the map of (hash,M) and set it as 1
+					EchoMessageMap[hash][mi] = 1
+				}
+			} else {
+				//else establish the map of (hash,M) and set it as 1
+				EchoMessageMap[hash] = make(map[string]int)
+				EchoMessageMap[hash][mi] = 1
+			}
+
+			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4),
+			//or t+1 matching RBCEcho messages in addition to t+1 RBCReady messages with the same hash (line 13-15, Algo 4)
+			mutex.Lock()
+			mutexReadyMap.Lock()
+			readyCounter := uint32(len(T[hash]))
+			mutexReadyMap.Unlock()
+			echoCounter := uint32(EchoMessageMap[hash][mi])
+			if echoCounter >= p.N-p.F || (echoCounter >= p.F+1 && readyCounter >= p.F+1) {
+				sendReady(hash, mi)
+			}
+			readySent := isReadySent
+			mutex.Unlock() //TODO: move this unlock into if statement
+			mutexEchoMap.Unlock()
+			//finish this goroutine when RBCReady is sent
+			if readySent {
+				break
+			}
+		}
+	}()
+
+	//handle RBCReady messages
+	go func() {
+		for {
+			m := <-p.GetMessage("RBCReady", ID)
+			if m.Sender >= p.N || hasReceivedReady[m.Sender] {
+				continue
+			} else {
+				hasReceivedReady[m.Sender] = true
+			}
+			// log.Printf("[party %v] receive RBCReady message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
+			var payloadMessage protobuf.RBCReady
+			proto.Unmarshal(m.Data, &payloadMessage)
+			hash := payloadMessage.Hash
+			hashString := string(hash)
+			mJ := payloadMessage.M
+			j := m.Sender //sender's pid, i.e., the index of the sender
+
+			mutexReadyMap.Lock()
+			//avoid the replay attack
+
+			//
+			_, ok := T[hashString]
+			if ok {
+				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
+			} else {
+				T[hashString] = make([]mReceived, 0)
+				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
+			}
+
+			// upon receiving |T| >= 2t+1 = n-t
+			if uint32(len(T[string(hash)])) >= p.N-p.F {
+				RSDecChan <- hash
+			}
+			readyCounter := uint32(len(T[hashString]))
+			mutexReadyMap.Unlock()
+
+			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
+			//the t+1 RBCEcho messages must match the hash of the t+1 RBCReady messages
+			if readyCounter >= p.F+1 {
+				mutexEchoMap.Lock()
+				mutex.Lock()
+				for mi, counter := range EchoMessageMap[hashString] {
+					if uint32(counter) >= p.F+1 {
+						sendReady(hashString, mi)
+						break
+					}
+				}
+				mutex.Unlock()
+				mutexEchoMap.Unlock()
+			}
+
+			//FIXME: kill this for loop when the RBC message is reconstructed
+			// isRec := <-RecDone
+			// if isRec {
+			// 	break
+			// }
+		}
+	}()
+
+	//wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
+	//if some of them are wrong and the reconstruction fails, wait for one more shard
+	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
+	for r := uint32(0); r <= p.F; r++ {
+		hash := <-RSDecChan
+
+		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
+		mutexReadyMap.Lock()
+		copy(mReceivedTemp, T[string(hash)])
+		mutexReadyMap.Unlock()
+
+		mReconstructed, ok := p.rsDecode(mReceivedTemp, hash)
+		if ok {
+			var replyMessage protobuf.Message
+			proto.Unmarshal(mReconstructed, &replyMessage)
+			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
+			return &replyMessage
+		}
+	}
+	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
+	return nil
+}
+
+//rsDecode reconstructs the message which matches hash. Up to t of the received shards may be wrong,
+//so all the combinations of data shards are tried until one of them matches the hash.
+func (p *HonestParty) rsDecode(received []mReceived, hash []byte) ([]byte, bool) {
+	if len(hash) != 256/8+4 {
+		return nil, false
+	}
+	//the last several bytes in hash are the lenth of M' (see line 9, Algo 4 in RBC paper)
+	mLen := utils.BytesToInt(hash[256/8:])
+	dataShards := int(p.N - (p.F + 1))
+	shardLen := (mLen + dataShards - 1) / dataShards
+	RSEncoder, _ := reedsolomon.New(dataShards, int(p.F+1))
+
+	var M = make([][]byte, p.N)
+	var try func(next int, chosen int) ([]byte, bool)
+	try = func(next int, chosen int) ([]byte, bool) {
+		if chosen == dataShards {
+			shards := make([][]byte, p.N)
+			copy(shards, M)
+			if RSEncoder.ReconstructData(shards) != nil {
+				return nil, false
+			}
+			//parse the shards and remove the padding zeros
+			var mReconstructed = make([]byte, 0)
+			for i := 0; i < dataShards; i++ {
+				mReconstructed = append(mReconstructed, shards[i]...)
+			}
+			mReconstructed = mReconstructed[0:mLen]
+			hNew := sha256.Sum256(mReconstructed)
+			return mReconstructed, bytes.Equal(hNew[:], hash[:256/8])
+		}
+		for i := next; i <= len(received)-(dataShards-chosen); i++ {
+			if shardLen == 0 || len(received[i].mj) != shardLen {
+				continue
+			}
+			M[received[i].j] = received[i].mj
+			m, ok := try(i+1, chosen+1)
+			if ok {
+				return m, true
+			}
+			M[received[i].j] = nil
+		}
+		return nil, false
+	}
+	return try(0, 0)
+}
-- 
2.43.0


From ec15957d15e310c3f9ab2b0bfc6d5d99c2ddf98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 44/50] fix: a certificate for a contribution is valid only in
 its own handoff

---
 internal/party/ProactivizeAndShareDist.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 8f3654e..9c1f6f1 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -12,8 +12,13 @@ import (
 	"google.golang.org/protobuf/proto"
 )
 
-//validMVBAIn is the predicate of MVBA: at least t+1 distinct contributions, each with the signature of 2t+1 parties
-func (p *HonestParty) validMVBAIn(value []byte) bool {
+//contributionMessage is what a party signs to vouch for the contribution of party j-1 to the handoff ID
+func contributionMessage(ID []byte, j uint32) []byte {
+	return []byte("Reshare" + string(ID) + "," + strconv.FormatUint(uint64(j), 10))
+}
+
+//validMVBAIn is the predicate of MVBA: at least t+1 distinct contributions to the handoff ID, each with the signature of 2t+1 parties
+func (p *HonestParty) validMVBAIn(ID []byte, value []byte) bool {
 	var input protobuf.MVBAIN
 	if proto.Unmarshal(value, &input) != nil || len(input.J) != len(input.Sig) || uint32(len(input.J)) < p.F+1 {
 		return false
@@ -24,7 +29,7 @@ func (p *HonestParty) validMVBAIn(value []byte) bool {
 			return false
 		}
 		included[j] = true
-		if p.tblsScheme.VerifyRecovered(p.SigPK.Commit(), []byte(strconv.FormatUint(uint64(j), 10)), input.Sig[i]) != nil {
+		if p.tblsScheme.VerifyRecovered(p.SigPK.Commit(), contributionMessage(ID, j), input.Sig[i]) != nil {
 			return false
 		}
 	}
@@ -343,7 +348,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				//log.Printf("[Proactivize Vote][New party %v] Verify Reshare message from party %v ok\n", p.PID, m.Sender)
 
 				//sign sig share for indexJ (index 0 is not used)
-				SigShare, _ := p.tblsScheme.Sign(p.SigSK, []byte(strconv.FormatUint(uint64(indexJ), 10)))
+				SigShare, _ := p.tblsScheme.Sign(p.SigSK, contributionMessage(ID, indexJ))
 				//prepare the Recover message
 				var RecoverMessage protobuf.Recover
 				RecoverMessage.Index = indexJ
@@ -456,7 +461,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				KZGVerifyOk := p.KZG.CheckProofSingle(&C, &wkij, &index, &vkij)
 				p.mutexKZG.Unlock()
 
-				SigShareVerifyOk := p.verifySigShare([]byte(strconv.FormatUint(uint64(k), 10)), ReceivedSigShare, mSender)
+				SigShareVerifyOk := p.verifySigShare(contributionMessage(ID, k), ReceivedSigShare, mSender)
 
 				if KZGVerifyOk && SigShareVerifyOk {
 					mutexSRec.Lock()
@@ -480,7 +485,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							tmpSig[i] = SSig[k][i].Sig
 						}
 						//converting uint32 to int is dangerous
-						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), tmpSig, int(2*p.F+1), int(p.N))
+						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, contributionMessage(ID, k), tmpSig, int(2*p.F+1), int(p.N))
 						CombinedFlag[k] = true
 						//log.Printf("[Proactivize Recover][New party %v] Have combined a full signature for party %v, holding %v signatures now\n", p.PID, k, len(MVBAIn.Sig)+1)
 
@@ -494,7 +499,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							MVBASent = true
 							//do not hold the mutexes during MVBA, Recover messages are still needed
 							go func() {
-								MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}, p.validMVBAIn) //temporary solution (MainProcess means smvba.MainProcess)
+								MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}, func(value []byte) bool { return p.validMVBAIn(ID, value) }) //temporary solution (MainProcess means smvba.MainProcess)
 							}()
 						}
 						mutexMVBAIn.Unlock()
-- 
2.43.0


From dfe6440294f577a5533450cd85f724494d25e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 45/50] fix: a party that acknowledged the leader's value in
 the second broadcast votes Yes

---
 internal/party/main_process.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index 5a96c81..ebe584f 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -124,7 +124,7 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte, pre
 			go preVote(ctx, p, IDr, l, &Lr)
 
 			//vote
-			go vote(ctx, p, IDr, l, preVoteFlagChannel, preVoteYesChannel, preVoteNoChannel, r)
+			go vote(ctx, p, IDr, l, &Lr, preVoteFlagChannel, preVoteYesChannel, preVoteNoChannel, r)
 
 			//result
 			select {
@@ -244,7 +244,28 @@ func preVote(ctx context.Context, p *HonestParty, IDr []byte, l uint32, Lr *sync
 	}
 }
 
-func vote(ctx context.Context, p *HonestParty, IDr []byte, l uint32, preVoteFlagChannel chan bool, preVoteYesChannel chan []byte, preVoteNoChannel chan []byte, r uint32) {
+func vote(ctx context.Context, p *HonestParty, IDr []byte, l uint32, Lr *sync.Map, preVoteFlagChannel chan bool, preVoteYesChannel chan []byte, preVoteNoChannel chan []byte, r uint32) {
+	//a party that acknowledged the leader's value in the second broadcast votes Yes, since
+	//its acknowledgement and the Yes votes of other parties together prove the value
+	if value1, ok1 := Lr.Load(l); ok1 {
+		lock := value1.(*protobuf.Lock)
+		h := sha3.Sum512(lock.Value)
+		var buf bytes.Buffer
+		buf.Write([]byte("Echo"))
+		buf.Write(IDr)
+		buf.Write(utils.Uint32ToBytes(l))
+		buf.WriteByte(2)
+		buf.Write(h[:])
+		sigShare, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(p.SigSK, buf.Bytes()) //sign("Echo"||ID||r||l||2||h)
+		p.Broadcast(core.Encapsulation("Vote", IDr, p.PID, &protobuf.Vote{
+			Vote:     true,
+			Value:    lock.Value,
+			Sig:      lock.Sig,
+			Sigshare: sigShare,
+		}))
+		return
+	}
+
 	select {
 	case <-ctx.Done():
 		return
-- 
2.43.0


From 07cd73c568eec9510937e3c9cc708fd47a30e63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 46/50] fix: unread messages of one instance cannot hold up the
 others

---
 pkg/core/dispatche.go | 46 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/pkg/core/dispatche.go b/pkg/core/dispatche.go
index 9b3368f..31697ba 100644
--- a/pkg/core/dispatche.go
+++ b/pkg/core/dispatche.go
@@ -12,13 +12,18 @@ func MakeDispatcheChannels(receiveChannel chan *protobuf.Message, N uint32) *syn
 	dispatcheChannels := new(sync.Map)
 
 	go func() { //dispatcher
+		backlogs := make(map[chan *protobuf.Message]*backlog)
 		for {
 			m := <-(receiveChannel)
 			value1, _ := dispatcheChannels.LoadOrStore(m.Type, new(sync.Map))
 
 			value2, _ := value1.(*sync.Map).LoadOrStore(string(m.Id), make(chan *protobuf.Message, N*N)) //ch change the size to N*N
 
-			value2.(chan *protobuf.Message) <- m
+			channel := value2.(chan *protobuf.Message)
+			if backlogs[channel] == nil {
+				backlogs[channel] = &backlog{channel: channel}
+			}
+			backlogs[channel].push(m)
 			//TODO: check reply attack?
 			//TODO: check m.Sender with ip||port
 
@@ -26,3 +31,42 @@ func MakeDispatcheChannels(receiveChannel chan *protobuf.Message, N uint32) *syn
 	}()
 	return dispatcheChannels
 }
+
+// backlog keeps the messages that do not fit into a channel, so that the unread messages of one ID do not hold up the others
+type backlog struct {
+	channel chan *protobuf.Message
+	mutex   sync.Mutex
+	waiting []*protobuf.Message
+	active  bool //whether drain is running
+}
+
+// push hands m to the channel after all the messages pushed before, without blocking
+func (b *backlog) push(m *protobuf.Message) {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	if !b.active {
+		select {
+		case b.channel <- m:
+			return
+		default:
+			b.active = true
+			go b.drain()
+		}
+	}
+	b.waiting = append(b.waiting, m)
+}
+
+func (b *backlog) drain() {
+	for {
+		b.mutex.Lock()
+		if len(b.waiting) == 0 {
+			b.active = false
+			b.mutex.Unlock()
+			return
+		}
+		m := b.waiting[0]
+		b.waiting = b.waiting[1:]
+		b.mutex.Unlock()
+		b.channel <- m
+	}
+}
-- 
2.43.0


From 0bfd03c8eb0aa41ec1d1eb52d1fb3519efadae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 47/50] fix: only the dealer's message is taken as the dealing

---
 internal/party/VSS.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index fabe580..b4a40a1 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -22,6 +22,9 @@ func (p *HonestParty) VSSShareReceive(ID []byte) {
 	//We assume VSS sender only sends VSSSend message once (whether the sender is honest or not)
 	//So there is no for-loop here: each party only processes VSSSend once
 	m := <-p.GetMessage("VSSSend", ID)
+	for m.Sender != 0x7fffffff { //only the dealer deals
+		m = <-p.GetMessage("VSSSend", ID)
+	}
 	log.Printf("[VSSEcho][Party %v] Received VSSSend Message\n", p.PID)
 	var payloadMessage protobuf.VSSSend
 	err := proto.Unmarshal(m.Data, &payloadMessage)
-- 
2.43.0


From 543709cef02fdf6eca904d9eb2a8c294c830f067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:54 +0000
Subject: [PATCH 48/50] fix: a failed accept does not end the process

---
 pkg/core/receive.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/core/receive.go b/pkg/core/receive.go
index 5a24f98..e10616a 100644
--- a/pkg/core/receive.go
+++ b/pkg/core/receive.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"log"
 	"net"
+	"time"
 
 	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
@@ -39,11 +40,13 @@ func MakeReceiveChannel(port string) chan *protobuf.Message {
 		for {
 			//The handle func run forever
 			conn, err3 = lis.AcceptTCP()
-			conn.SetKeepAlive(true)
 			if err3 != nil {
+				//e.g., too many open connections; later ones can be accepted again
 				fmt.Printf("receiveChannel ERROR: %v\n", err3)
-				log.Fatalln(err3)
+				time.Sleep(10 * time.Millisecond)
+				continue
 			}
+			conn.SetKeepAlive(true)
 			//Once connect to a node, make a sub-handle func to handle this connection
 			go func(conn *net.TCPConn, channel chan *protobuf.Message) {
 				//a broken connection or a malformed message only ends this connection
-- 
2.43.0


From 3fc5bafefb1bf818e95feaf82cff29f1d6544ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:31 +0000
Subject: [PATCH 49/50] fix: a KZG proof is rejected only if the pairing
 equation fails for doubled points, too

The pairing of the pinned kilic/bls12-381 is wrong for about one of 100000
inputs (mul014 adds up to four unreduced field elements), so proofs of true
values were rejected once in a while.
---
 internal/bls/bls_kilic.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/bls/bls_kilic.go b/internal/bls/bls_kilic.go
index 3d3bb12..d5d9f0b 100755
--- a/internal/bls/bls_kilic.go
+++ b/internal/bls/bls_kilic.go
@@ -154,6 +154,18 @@ func LinCombG1(numbers []G1Point, factors []Fr) *G1Point {
 
 // e(a1^(-1), a2) * e(b1,  b2) = 1_T
 func PairingsVerify(a1 *G1Point, a2 *G2Point, b1 *G1Point, b2 *G2Point) bool {
+	if pairingsCheck(a1, a2, b1, b2) {
+		return true
+	}
+	// The lazy reductions of kilic/bls12-381 overflow for a few points (about 1 of 100000), and a valid equation seems to be wrong.
+	// Thus the equivalent equation e(2*a1^(-1), a2) * e(2*b1,  b2) = 1_T is checked before rejecting.
+	var twoA1, twoB1 G1Point
+	AddG1(&twoA1, a1, a1)
+	AddG1(&twoB1, b1, b1)
+	return pairingsCheck(&twoA1, a2, &twoB1, b2)
+}
+
+func pairingsCheck(a1 *G1Point, a2 *G2Point, b1 *G1Point, b2 *G2Point) bool {
 	pairingEngine := kbls.NewEngine()
 	pairingEngine.AddPairInv((*kbls.PointG1)(a1), (*kbls.PointG2)(a2))
 	pairingEngine.AddPair((*kbls.PointG1)(b1), (*kbls.PointG2)(b2))
-- 
2.43.0


From 2df7cb95e37c71bd3fd87c84d7804125f9f2a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:51 +0000
Subject: [PATCH 50/50] fix: a valid threshold signature (share) is not
 rejected for a few points

The pairing of the pinned kilic/bls12-381 is wrong for about one of 100000
inputs, which could keep a proposer from its certificate and so MVBA from
terminating.
---
 internal/party/main_process.go    |  2 +-
 internal/party/message_handler.go |  5 ++---
 internal/party/pairing.go         | 26 ++++++++++++++++++++++++++
 internal/party/party.go           |  3 +--
 internal/party/pb.go              |  2 +-
 internal/party/spb.go             |  3 +--
 6 files changed, 32 insertions(+), 9 deletions(-)
 create mode 100644 internal/party/pairing.go

diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index ebe584f..a7870fe 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -167,7 +167,7 @@ func proposalChecker(ID []byte, r uint32, leaders []uint32, predicate []func(val
 			}
 		}
 
-		suite := kyberbls.NewBLS12381Suite()
+		suite := newPairingSuite()
 		blsScheme := bls.NewSchemeOnG1(suite)
 		sigLen := suite.G1().PointLen()
 		for k := r; k > 0; k-- {
diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index a3c1e5a..aa63733 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -12,7 +12,6 @@ import (
 	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
-	kyberbls "github.com/drand/kyber-bls12381"
 	"github.com/drand/kyber/sign/bls"
 	"github.com/drand/kyber/sign/tbls"
 	"golang.org/x/crypto/sha3"
@@ -24,8 +23,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	voteFlagChannel chan byte, voteYesChannel chan []byte, voteNoChannel chan []byte, voteOtherChannel chan []byte,
 	leaderChannel chan uint32, haltChannel chan []byte, r uint32) {
 
-	tblsScheme := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite())
-	blsScheme := bls.NewSchemeOnG1(kyberbls.NewBLS12381Suite())
+	tblsScheme := tbls.NewThresholdSchemeOnG1(newPairingSuite())
+	blsScheme := bls.NewSchemeOnG1(newPairingSuite())
 	//FinishMessage Handler
 	go func() {
 		FrLength := 0
diff --git a/internal/party/pairing.go b/internal/party/pairing.go
new file mode 100644
index 0000000..4d11e9c
--- /dev/null
+++ b/internal/party/pairing.go
@@ -0,0 +1,26 @@
+package party
+
+import (
+	"github.com/drand/kyber"
+	kyberbls "github.com/drand/kyber-bls12381"
+	"github.com/drand/kyber/pairing"
+)
+
+// pairingSuite is the suite of kyber-bls12381 with a reliable ValidatePairing
+type pairingSuite struct {
+	pairing.Suite
+}
+
+func newPairingSuite() pairing.Suite {
+	return pairingSuite{kyberbls.NewBLS12381Suite()}
+}
+
+// ValidatePairing reports whether e(p1,p2) = e(inv1,inv2).
+// The underlying pairing is wrong for a few points (about 1 of 100000), and a valid equation seems to be wrong.
+// Thus the equivalent equation e(2*p1,p2) = e(2*inv1,inv2) is checked before rejecting.
+func (s pairingSuite) ValidatePairing(p1, p2, inv1, inv2 kyber.Point) bool {
+	if s.Suite.ValidatePairing(p1, p2, inv1, inv2) {
+		return true
+	}
+	return s.Suite.ValidatePairing(p1.Clone().Add(p1, p1), p2, inv1.Clone().Add(inv1, inv1), inv2)
+}
diff --git a/internal/party/party.go b/internal/party/party.go
index ba7185e..fe91076 100644
--- a/internal/party/party.go
+++ b/internal/party/party.go
@@ -4,7 +4,6 @@ import (
 	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
 	"github.com/DyCAPSTeam/DyCAPS/internal/polycommit"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
-	kyberbls "github.com/drand/kyber-bls12381"
 	"github.com/drand/kyber/share"
 	"github.com/drand/kyber/sign"
 	"github.com/drand/kyber/sign/tbls"
@@ -121,7 +120,7 @@ type RecoverMsg struct {
 
 //NewHonestParty returns a new honest party object
 func NewHonestParty(e uint32, N uint32, F uint32, pid uint32, ipList []string, portList []string, ipListNext []string, portListNext []string, sigPK *share.PubPoly, sigSK *share.PriShare) *HonestParty {
-	var SysSuite = kyberbls.NewBLS12381Suite()
+	var SysSuite = newPairingSuite()
 	tblsScheme := tbls.NewThresholdSchemeOnG1(SysSuite)
 
 	secretG1, secretG2 := polycommit.GenerateTestingSetup("46015081477078601964787943834255776126696019968430095991502055467779756761969", uint64(F+1))
diff --git a/internal/party/pb.go b/internal/party/pb.go
index 34a8eec..ccb9d2d 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -14,7 +14,7 @@ import (
 
 //Sender is run by the sender of a instance of provable broadcast
 func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, validation []byte) ([]byte, bool) {
-	tblsScheme := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite())
+	tblsScheme := tbls.NewThresholdSchemeOnG1(newPairingSuite())
 	valueMessage := core.Encapsulation("Value", ID, p.PID, &protobuf.Value{
 		Value:      value,
 		Validation: validation,
diff --git a/internal/party/spb.go b/internal/party/spb.go
index 46f0b71..7e4e15c 100644
--- a/internal/party/spb.go
+++ b/internal/party/spb.go
@@ -7,7 +7,6 @@ forked from https://github.com/xygdys/Buada_BFT
 import (
 	"bytes"
 	"context"
-	kyberbls "github.com/drand/kyber-bls12381"
 	"github.com/drand/kyber/sign/bls"
 	"golang.org/x/crypto/sha3"
 )
@@ -62,6 +61,6 @@ func validator(p *HonestParty, ID []byte, sender uint32, value []byte, validatio
 	buf.WriteByte(1)
 	buf.Write(h[:])
 	sm := buf.Bytes()
-	err := bls.NewSchemeOnG1(kyberbls.NewBLS12381Suite()).Verify(p.SigPK.Commit(), sm, validation)
+	err := bls.NewSchemeOnG1(newPairingSuite()).Verify(p.SigPK.Commit(), sm, validation)
 	return err
 }
-- 
2.43.0

