From 35cbb06187435a234e5af8d0185a4176c685dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 01/18] fix: distinguish hopeless and cancelled sessions in the
 report's outcome

---
 manul/src/session/session.rs |  2 +-
 manul/src/session/tokio.rs   | 23 ++++++++++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index fc90233..d0eb37e 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -461,7 +461,7 @@ where
     /// Will be usually called after receiving [`CanFinalize::Never`] from
     /// [`can_finalize`](`Self::can_finalize`).
     pub fn terminate_due_to_errors(self, accum: RoundAccumulator<P, SP>) -> Result<SessionReport<P, SP>, LocalError> {
-        self.terminate_inner(accum, false)
+        self.terminate_inner(accum, true)
     }
 
     /// Attempts to finalize the current round.
diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index 34bcd31..b9f81b4 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -143,7 +143,7 @@ where
                     message_in.ok_or_else(|| LocalError::new("The incoming message channel was closed unexpectedly"))?
                 },
                 _ = cancellation.cancelled() => {
-                    return session.terminate_due_to_errors(accum);
+                    return session.terminate(accum);
                 }
             };
 
@@ -180,6 +180,13 @@ where
     }
 }
 
+/// The reason to stop waiting for the messages of a round.
+enum StopReason {
+    CanFinalize,
+    CannotFinalize,
+    Cancelled,
+}
+
 /// Executes the session waiting for the messages from the `rx` channel
 /// and pushing outgoing messages into the `tx` channel.
 /// The messages are processed in parallel.
@@ -277,14 +284,14 @@ where
             message_processing_tasks.push(message_processing);
         }
 
-        let can_finalize = loop {
+        let stop_reason = loop {
             match session.can_finalize(&accum) {
-                CanFinalize::Yes => break true,
+                CanFinalize::Yes => break StopReason::CanFinalize,
                 CanFinalize::NotYet => {}
                 // Due to already registered invalid messages from nodes,
                 // even if the remaining nodes send correct messages, it won't be enough.
                 // Terminating.
-                CanFinalize::Never => break false,
+                CanFinalize::Never => break StopReason::CannotFinalize,
             }
 
             tokio::select! {
@@ -332,7 +339,7 @@ where
                     }
                 },
                 _ = cancellation.cancelled() => {
-                    break false;
+                    break StopReason::Cancelled;
                 }
             }
         };
@@ -373,8 +380,10 @@ where
         let session_inner = Arc::into_inner(session)
             .ok_or_else(|| LocalError::new("There are still references to the session left"))?;
 
-        if !can_finalize {
-            return session_inner.terminate_due_to_errors(accum);
+        match stop_reason {
+            StopReason::CanFinalize => {}
+            StopReason::CannotFinalize => return session_inner.terminate_due_to_errors(accum),
+            StopReason::Cancelled => return session_inner.terminate(accum),
         }
 
         match session_inner.finalize_round(rng, accum)? {
-- 
2.43.0


From 093139b20ca0127890c8f5a8854edc6cc12273ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 02/18] fix: do not wait for messages from banned parties

---
 manul/src/session/session.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index d0eb37e..37b7628 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -535,7 +535,7 @@ where
 
     /// Checks if the round can be finalized.
     pub fn can_finalize(&self, accum: &RoundAccumulator<P, SP>) -> CanFinalize {
-        accum.can_finalize()
+        accum.can_finalize(&self.transcript)
     }
 }
 
@@ -588,14 +588,20 @@ where
         }
     }
 
-    fn can_finalize(&self) -> CanFinalize {
+    fn can_finalize(&self, transcript: &Transcript<P, SP>) -> CanFinalize {
+        // If a party is banned, new messages from it will be rejected,
+        // so we can only count on the one that is already being processed.
+        let can_still_contribute = |key: &SP::Verifier| {
+            self.message_is_being_processed(key) || !(self.is_banned(key) || transcript.is_banned(key))
+        };
+
         if self
             .expecting_messages_from
             .iter()
             .all(|key| self.payloads.contains_key(key))
         {
             CanFinalize::Yes
-        } else if !self.still_have_not_sent_messages.is_empty() {
+        } else if self.still_have_not_sent_messages.iter().any(can_still_contribute) {
             CanFinalize::NotYet
         } else {
             CanFinalize::Never
-- 
2.43.0


From 1fc14632c3e8dd63cbdf73d4b8e5025f161e6a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 03/18] fix: reject another message from a party whose message
 for the round was cached

---
 manul/src/session/session.rs | 49 ++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 37b7628..f8fcff4 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -119,6 +119,8 @@ pub struct Session<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     normal_broadcast: SignedMessagePart<NormalBroadcast>,
     transition_info: TransitionInfo,
     transcript: Transcript<P, SP>,
+    // The parties whose messages for this round were received (and cached) during the previous one.
+    already_received_from: BTreeSet<SP::Verifier>,
 }
 
 /// Possible non-erroneous results of finalizing a round.
@@ -152,7 +154,15 @@ where
     {
         let first_round = entry_point.make_round(rng, session_id.as_ref(), &signer.verifying_key())?;
         let format = BoxedFormat::new::<SP::WireFormat>();
-        Self::new_for_next_round(rng, session_id, signer, format, first_round, Transcript::new())
+        Self::new_for_next_round(
+            rng,
+            session_id,
+            signer,
+            format,
+            first_round,
+            Transcript::new(),
+            BTreeSet::new(),
+        )
     }
 
     fn new_for_next_round(
@@ -162,6 +172,7 @@ where
         format: BoxedFormat,
         round: BoxedRound<SP::Verifier, P>,
         transcript: Transcript<P, SP>,
+        already_received_from: BTreeSet<SP::Verifier>,
     ) -> Result<Self, LocalError> {
         let verifier = signer.verifying_key();
 
@@ -220,6 +231,7 @@ where
             communication_info,
             echo_round_info,
             transcript,
+            already_received_from,
         })
     }
 
@@ -422,7 +434,10 @@ where
 
     /// Makes an accumulator for a new round.
     pub fn make_accumulator(&self) -> RoundAccumulator<P, SP> {
-        RoundAccumulator::new(&self.communication_info.expecting_messages_from)
+        RoundAccumulator::new(
+            &self.communication_info.expecting_messages_from,
+            &self.already_received_from,
+        )
     }
 
     fn terminate_inner(
@@ -494,8 +509,15 @@ where
                 accum.artifacts,
             ));
             let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id);
-            let session =
-                Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
+            let session = Session::new_for_next_round(
+                rng,
+                self.session_id,
+                self.signer,
+                self.format,
+                round,
+                transcript,
+                senders(&cached_messages),
+            )?;
             return Ok(RoundOutcome::AnotherRound {
                 session: session.into(),
                 cached_messages,
@@ -523,8 +545,15 @@ where
                     .filter(|message| !transcript.is_banned(message.from()))
                     .collect::<Vec<_>>();
 
-                let session =
-                    Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
+                let session = Session::new_for_next_round(
+                    rng,
+                    self.session_id,
+                    self.signer,
+                    self.format,
+                    round,
+                    transcript,
+                    senders(&cached_messages),
+                )?;
                 Ok(RoundOutcome::AnotherRound {
                     cached_messages,
                     session: session.into(),
@@ -572,11 +601,11 @@ where
     P: Protocol<SP::Verifier>,
     SP: SessionParameters,
 {
-    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>) -> Self {
+    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>, already_received_from: &BTreeSet<SP::Verifier>) -> Self {
         Self {
             still_have_not_sent_messages: expecting_messages_from.clone(),
             expecting_messages_from: expecting_messages_from.clone(),
-            processing: BTreeSet::new(),
+            processing: already_received_from.clone(),
             payloads: BTreeMap::new(),
             artifacts: BTreeMap::new(),
             cached: BTreeMap::new(),
@@ -821,6 +850,10 @@ fn filter_messages<Verifier>(
         .collect()
 }
 
+fn senders<Verifier: Clone + Ord>(messages: &[VerifiedMessage<Verifier>]) -> BTreeSet<Verifier> {
+    messages.iter().map(|message| message.from().clone()).collect()
+}
+
 #[cfg(test)]
 mod tests {
     use impls::impls;
-- 
2.43.0


From 2c808d1170dcdfd4f1715a187da6ece69bd567c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 04/18] fix: reject messages from parties that are not expected
 to send them

---
 manul/src/session/session.rs | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index f8fcff4..a539b85 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -24,8 +24,8 @@ use super::{
 };
 use crate::protocol::{
     Artifact, BoxedFormat, BoxedReceiveError, BoxedRound, CommunicationInfo, DirectMessage, DynProtocolMessage,
-    EchoBroadcast, EchoRoundParticipation, EntryPoint, FinalizeOutcome, NormalBroadcast, PartyId, Payload, Protocol,
-    ProtocolMessagePart, RoundId, TransitionInfo,
+    DynRound, EchoBroadcast, EchoRoundParticipation, EntryPoint, FinalizeOutcome, NormalBroadcast, PartyId, Payload,
+    Protocol, ProtocolMessagePart, RoundId, TransitionInfo,
 };
 
 /// A set of types needed to execute a session.
@@ -350,6 +350,12 @@ where
             .simultaneous_rounds(self.echo_round_info.is_some())?;
 
         let message_for = if message_round_id == self.round_id() {
+            if !accum.message_is_expected(from) {
+                let err = "Messages from this party are not expected in this round";
+                accum.register_unprovable_error(from, RemoteError::new(err))?;
+                trace!("[{key:?}] {err}");
+                return Ok(PreprocessOutcome::remote_error(err));
+            }
             if accum.message_is_being_processed(from) {
                 let err = "Message from this party is already being processed";
                 accum.register_unprovable_error(from, RemoteError::new(err))?;
@@ -508,7 +514,7 @@ where
                 accum.payloads,
                 accum.artifacts,
             ));
-            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id);
+            let cached_messages = filter_messages(accum.cached, round.as_ref());
             let session = Session::new_for_next_round(
                 rng,
                 self.session_id,
@@ -540,7 +546,7 @@ where
                 // processing messages from the same node for the current round.
                 // So there might have been some new errors, and we need to check again
                 // if the sender is already banned.
-                let cached_messages = filter_messages(accum.cached, &round_id)
+                let cached_messages = filter_messages(accum.cached, round.as_ref())
                     .into_iter()
                     .filter(|message| !transcript.is_banned(message.from()))
                     .collect::<Vec<_>>();
@@ -641,6 +647,10 @@ where
         self.provable_errors.contains_key(from) || self.unprovable_errors.contains_key(from)
     }
 
+    fn message_is_expected(&self, from: &SP::Verifier) -> bool {
+        self.expecting_messages_from.contains(from)
+    }
+
     fn message_is_being_processed(&self, from: &SP::Verifier) -> bool {
         self.processing.contains(from)
     }
@@ -840,13 +850,21 @@ impl<Verifier> PreprocessOutcome<Verifier> {
     }
 }
 
-fn filter_messages<Verifier>(
+// Picks out the messages for the given round from the parties that are expected to send them.
+fn filter_messages<P, Verifier>(
     messages: BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>,
-    round_id: &RoundId,
-) -> Vec<VerifiedMessage<Verifier>> {
+    round: &dyn DynRound<Verifier, Protocol = P>,
+) -> Vec<VerifiedMessage<Verifier>>
+where
+    P: Protocol<Verifier>,
+    Verifier: PartyId,
+{
+    let round_id = round.transition_info().id;
+    let expecting_messages_from = round.communication_info().expecting_messages_from;
     messages
-        .into_values()
-        .filter_map(|mut messages| messages.remove(round_id))
+        .into_iter()
+        .filter(|(from, _messages)| expecting_messages_from.contains(from))
+        .filter_map(|(_from, mut messages)| messages.remove(&round_id))
         .collect()
 }
 
-- 
2.43.0


From 0b12519dccbe080f5faded97d6c2f4b7f5b9895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 05/18] fix: drop cached messages from banned parties when
 starting an echo round

---
 manul/src/session/session.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index a539b85..b785186 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -514,7 +514,7 @@ where
                 accum.payloads,
                 accum.artifacts,
             ));
-            let cached_messages = filter_messages(accum.cached, round.as_ref());
+            let cached_messages = filter_messages(accum.cached, round.as_ref(), &transcript);
             let session = Session::new_for_next_round(
                 rng,
                 self.session_id,
@@ -542,14 +542,7 @@ where
                     return Err(LocalError::new(format!("Unexpected next round id: {round_id:?}")));
                 }
 
-                // These messages could have been cached before
-                // processing messages from the same node for the current round.
-                // So there might have been some new errors, and we need to check again
-                // if the sender is already banned.
-                let cached_messages = filter_messages(accum.cached, round.as_ref())
-                    .into_iter()
-                    .filter(|message| !transcript.is_banned(message.from()))
-                    .collect::<Vec<_>>();
+                let cached_messages = filter_messages(accum.cached, round.as_ref(), &transcript);
 
                 let session = Session::new_for_next_round(
                     rng,
@@ -851,19 +844,21 @@ impl<Verifier> PreprocessOutcome<Verifier> {
 }
 
 // Picks out the messages for the given round from the parties that are expected to send them.
-fn filter_messages<P, Verifier>(
-    messages: BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>,
-    round: &dyn DynRound<Verifier, Protocol = P>,
-) -> Vec<VerifiedMessage<Verifier>>
-where
-    P: Protocol<Verifier>,
-    Verifier: PartyId,
-{
+fn filter_messages<P: Protocol<SP::Verifier>, SP: SessionParameters>(
+    messages: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
+    round: &dyn DynRound<SP::Verifier, Protocol = P>,
+    transcript: &Transcript<P, SP>,
+) -> Vec<VerifiedMessage<SP::Verifier>> {
     let round_id = round.transition_info().id;
     let expecting_messages_from = round.communication_info().expecting_messages_from;
     messages
         .into_iter()
         .filter(|(from, _messages)| expecting_messages_from.contains(from))
+        // These messages could have been cached before
+        // processing messages from the same node for the current round.
+        // So there might have been some new errors, and we need to check again
+        // if the sender is already banned.
+        .filter(|(from, _messages)| !transcript.is_banned(from))
         .filter_map(|(_from, mut messages)| messages.remove(&round_id))
         .collect()
 }
-- 
2.43.0


From 6d9675484fa3b309e0077c551f90446aa43e5804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 06/18] fix: keep messages for the following rounds cached
 through the echo round

---
 manul/src/session/session.rs | 99 ++++++++++++++++++++----------------
 1 file changed, 56 insertions(+), 43 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index b785186..6929810 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -24,8 +24,8 @@ use super::{
 };
 use crate::protocol::{
     Artifact, BoxedFormat, BoxedReceiveError, BoxedRound, CommunicationInfo, DirectMessage, DynProtocolMessage,
-    DynRound, EchoBroadcast, EchoRoundParticipation, EntryPoint, FinalizeOutcome, NormalBroadcast, PartyId, Payload,
-    Protocol, ProtocolMessagePart, RoundId, TransitionInfo,
+    EchoBroadcast, EchoRoundParticipation, EntryPoint, FinalizeOutcome, NormalBroadcast, PartyId, Payload, Protocol,
+    ProtocolMessagePart, RoundId, TransitionInfo,
 };
 
 /// A set of types needed to execute a session.
@@ -104,6 +104,9 @@ pub(crate) struct EchoRoundInfo<Verifier> {
     pub(crate) expected_echos: BTreeSet<Verifier>,
 }
 
+/// The messages for other rounds, by the sender and the round they belong to.
+type CachedMessages<Verifier> = BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>;
+
 /// An object encapsulating the currently active round, transport protocol,
 /// and the database of messages and errors from the previous rounds.
 #[derive(Debug)]
@@ -121,6 +124,8 @@ pub struct Session<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     transcript: Transcript<P, SP>,
     // The parties whose messages for this round were received (and cached) during the previous one.
     already_received_from: BTreeSet<SP::Verifier>,
+    // The messages for the rounds following this one received during the previous one.
+    early_messages: CachedMessages<SP::Verifier>,
 }
 
 /// Possible non-erroneous results of finalizing a round.
@@ -154,15 +159,16 @@ where
     {
         let first_round = entry_point.make_round(rng, session_id.as_ref(), &signer.verifying_key())?;
         let format = BoxedFormat::new::<SP::WireFormat>();
-        Self::new_for_next_round(
+        let (session, _cached_messages) = Self::new_for_next_round(
             rng,
             session_id,
             signer,
             format,
             first_round,
             Transcript::new(),
-            BTreeSet::new(),
-        )
+            BTreeMap::new(),
+        )?;
+        Ok(session)
     }
 
     fn new_for_next_round(
@@ -172,8 +178,8 @@ where
         format: BoxedFormat,
         round: BoxedRound<SP::Verifier, P>,
         transcript: Transcript<P, SP>,
-        already_received_from: BTreeSet<SP::Verifier>,
-    ) -> Result<Self, LocalError> {
+        cached_messages: CachedMessages<SP::Verifier>,
+    ) -> Result<(Self, Vec<VerifiedMessage<SP::Verifier>>), LocalError> {
         let verifier = signer.verifying_key();
 
         let transition_info = round.as_ref().transition_info();
@@ -219,7 +225,34 @@ where
             }),
         };
 
-        Ok(Self {
+        // Pick out the messages for this round from the parties that are expected to send them,
+        // and keep the ones for the rounds that may follow it.
+        //
+        // These messages could have been cached before
+        // processing messages from the same node for the previous round.
+        // So there might have been some new errors, and we need to check again
+        // if the sender is already banned.
+        let round_id = transition_info.id();
+        let following_rounds = transition_info.simultaneous_rounds(echo_round_info.is_some())?;
+        let mut messages = Vec::new();
+        let mut early_messages = CachedMessages::new();
+        for (from, mut cached) in cached_messages {
+            if transcript.is_banned(&from) {
+                continue;
+            }
+            if let Some(message) = cached.remove(&round_id) {
+                if communication_info.expecting_messages_from.contains(&from) {
+                    messages.push(message);
+                }
+            }
+            cached.retain(|round_id, _message| following_rounds.contains(round_id));
+            if !cached.is_empty() {
+                early_messages.insert(from, cached);
+            }
+        }
+        let already_received_from = messages.iter().map(|message| message.from().clone()).collect();
+
+        let session = Self {
             session_id,
             signer,
             verifier,
@@ -232,7 +265,9 @@ where
             echo_round_info,
             transcript,
             already_received_from,
-        })
+            early_messages,
+        };
+        Ok((session, messages))
     }
 
     /// Returns the verifier corresponding to the session's signer.
@@ -443,6 +478,7 @@ where
         RoundAccumulator::new(
             &self.communication_info.expecting_messages_from,
             &self.already_received_from,
+            &self.early_messages,
         )
     }
 
@@ -514,15 +550,14 @@ where
                 accum.payloads,
                 accum.artifacts,
             ));
-            let cached_messages = filter_messages(accum.cached, round.as_ref(), &transcript);
-            let session = Session::new_for_next_round(
+            let (session, cached_messages) = Session::new_for_next_round(
                 rng,
                 self.session_id,
                 self.signer,
                 self.format,
                 round,
                 transcript,
-                senders(&cached_messages),
+                accum.cached,
             )?;
             return Ok(RoundOutcome::AnotherRound {
                 session: session.into(),
@@ -542,16 +577,14 @@ where
                     return Err(LocalError::new(format!("Unexpected next round id: {round_id:?}")));
                 }
 
-                let cached_messages = filter_messages(accum.cached, round.as_ref(), &transcript);
-
-                let session = Session::new_for_next_round(
+                let (session, cached_messages) = Session::new_for_next_round(
                     rng,
                     self.session_id,
                     self.signer,
                     self.format,
                     round,
                     transcript,
-                    senders(&cached_messages),
+                    accum.cached,
                 )?;
                 Ok(RoundOutcome::AnotherRound {
                     cached_messages,
@@ -587,7 +620,7 @@ pub struct RoundAccumulator<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     processing: BTreeSet<SP::Verifier>,
     payloads: BTreeMap<SP::Verifier, Payload>,
     artifacts: BTreeMap<SP::Verifier, Artifact>,
-    cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
+    cached: CachedMessages<SP::Verifier>,
     echo_broadcasts: BTreeMap<SP::Verifier, SignedMessagePart<EchoBroadcast>>,
     normal_broadcasts: BTreeMap<SP::Verifier, SignedMessagePart<NormalBroadcast>>,
     direct_messages: BTreeMap<SP::Verifier, SignedMessagePart<DirectMessage>>,
@@ -600,14 +633,18 @@ where
     P: Protocol<SP::Verifier>,
     SP: SessionParameters,
 {
-    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>, already_received_from: &BTreeSet<SP::Verifier>) -> Self {
+    fn new(
+        expecting_messages_from: &BTreeSet<SP::Verifier>,
+        already_received_from: &BTreeSet<SP::Verifier>,
+        early_messages: &CachedMessages<SP::Verifier>,
+    ) -> Self {
         Self {
             still_have_not_sent_messages: expecting_messages_from.clone(),
             expecting_messages_from: expecting_messages_from.clone(),
             processing: already_received_from.clone(),
             payloads: BTreeMap::new(),
             artifacts: BTreeMap::new(),
-            cached: BTreeMap::new(),
+            cached: early_messages.clone(),
             echo_broadcasts: BTreeMap::new(),
             normal_broadcasts: BTreeMap::new(),
             direct_messages: BTreeMap::new(),
@@ -843,30 +880,6 @@ impl<Verifier> PreprocessOutcome<Verifier> {
     }
 }
 
-// Picks out the messages for the given round from the parties that are expected to send them.
-fn filter_messages<P: Protocol<SP::Verifier>, SP: SessionParameters>(
-    messages: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
-    round: &dyn DynRound<SP::Verifier, Protocol = P>,
-    transcript: &Transcript<P, SP>,
-) -> Vec<VerifiedMessage<SP::Verifier>> {
-    let round_id = round.transition_info().id;
-    let expecting_messages_from = round.communication_info().expecting_messages_from;
-    messages
-        .into_iter()
-        .filter(|(from, _messages)| expecting_messages_from.contains(from))
-        // These messages could have been cached before
-        // processing messages from the same node for the current round.
-        // So there might have been some new errors, and we need to check again
-        // if the sender is already banned.
-        .filter(|(from, _messages)| !transcript.is_banned(from))
-        .filter_map(|(_from, mut messages)| messages.remove(&round_id))
-        .collect()
-}
-
-fn senders<Verifier: Clone + Ord>(messages: &[VerifiedMessage<Verifier>]) -> BTreeSet<Verifier> {
-    messages.iter().map(|message| message.from().clone()).collect()
-}
-
 #[cfg(test)]
 mod tests {
     use impls::impls;
-- 
2.43.0


From f21703e7032b58d3c60a9303a3b09ae03ab598fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 07/18] fix: accept early and late echoes of the neighboring
 rounds

---
 manul/src/protocol/round_id.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/manul/src/protocol/round_id.rs b/manul/src/protocol/round_id.rs
index 9659c18..7f30876 100644
--- a/manul/src/protocol/round_id.rs
+++ b/manul/src/protocol/round_id.rs
@@ -181,14 +181,19 @@ impl TransitionInfo {
     /// This includes: the child rounds (if some nodes already finalized this round),
     /// the parent rounds (if those nodes still are not finalized while we already are),
     /// and the sibling rounds (if some nodes went on a different path).
+    /// Any of these may be followed by an echo round on some of the nodes.
     pub(crate) fn simultaneous_rounds(&self, followed_by_echo_round: bool) -> Result<BTreeSet<RoundId>, LocalError> {
-        let mut result = if followed_by_echo_round {
-            BTreeSet::from([self.id.echo()?])
-        } else {
-            self.parents.clone()
-        };
-        result.extend(self.siblings.iter().cloned());
-        result.extend(self.children.iter().cloned());
+        let mut result = BTreeSet::new();
+        if followed_by_echo_round {
+            result.insert(self.id.echo()?);
+        }
+        for round_id in self.parents.iter().chain(&self.siblings).chain(&self.children) {
+            result.insert(round_id.clone());
+            if !round_id.is_echo() {
+                result.insert(round_id.echo()?);
+            }
+        }
+        result.remove(&self.id);
         Ok(result)
     }
 
@@ -200,8 +205,9 @@ impl TransitionInfo {
     pub(crate) fn echo(self) -> Result<Self, LocalError> {
         Ok(Self {
             id: self.id.echo()?,
-            parents: [self.id.clone()].into(),
-            siblings: [].into(),
+            parents: [self.id].into(),
+            // The nodes that went on a different path may be still executing these rounds.
+            siblings: self.siblings,
             children: self.children,
             may_produce_result: self.may_produce_result,
         })
-- 
2.43.0


From 54dc59031b6718f546fa44e82a6c5dea185eed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 08/18] fix: do not overwrite an already registered unprovable
 error

---
 manul/src/session/session.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 6929810..dd7ad11 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -809,7 +809,9 @@ where
                 self.register_provable_error(&from, evidence)
             }
             BoxedReceiveError::Unprovable(error) => {
-                self.unprovable_errors.insert(from.clone(), error);
+                // The party could have been banned while its message was being processed.
+                // Keep the first registered error.
+                self.unprovable_errors.entry(from).or_insert(error);
                 Ok(())
             }
             BoxedReceiveError::Echo(error) => {
-- 
2.43.0


From c07d1a70d994bfa30fda9e0f1387c8c317ee280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 09/18] fix: file evidence of mismatched broadcasts under the
 guilty party

---
 manul/src/session/session.rs    | 31 ++++++++++++++++++-------------
 manul/src/session/transcript.rs |  4 ++++
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index dd7ad11..baf84f2 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -703,13 +703,13 @@ where
         }
     }
 
-    fn register_provable_error(&mut self, from: &SP::Verifier, evidence: Evidence<P, SP>) -> Result<(), LocalError> {
-        if self.provable_errors.insert(from.clone(), evidence).is_some() {
-            Err(LocalError::new(format!(
-                "A provable error for {from:?} is already registered",
-            )))
-        } else {
-            Ok(())
+    fn register_provable_error(&mut self, transcript: &Transcript<P, SP>, evidence: Evidence<P, SP>) {
+        // Note that the guilty party may be different from the sender of the message that triggered the error,
+        // so it may have already been reported based on the messages from other nodes, or in a previous round.
+        // Keep the first registered error.
+        let guilty_party = evidence.guilty_party().clone();
+        if !transcript.has_provable_error(&guilty_party) {
+            self.provable_errors.entry(guilty_party).or_insert(evidence);
         }
     }
 
@@ -783,17 +783,20 @@ where
             BoxedReceiveError::InvalidDirectMessage(error) => {
                 let (_echo_broadcast, _normal_broadcast, direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_direct_message(&from, direct_message, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(transcript, evidence);
+                Ok(())
             }
             BoxedReceiveError::InvalidEchoBroadcast(error) => {
                 let (echo_broadcast, _normal_broadcast, _direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_echo_broadcast(&from, echo_broadcast, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(transcript, evidence);
+                Ok(())
             }
             BoxedReceiveError::InvalidNormalBroadcast(error) => {
                 let (_echo_broadcast, normal_broadcast, _direct_message) = processed.message.into_parts();
                 let evidence = Evidence::new_invalid_normal_broadcast(&from, normal_broadcast, error);
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(transcript, evidence);
+                Ok(())
             }
             BoxedReceiveError::Protocol(boxed_error) => {
                 let (echo_broadcast, normal_broadcast, direct_message) = processed.message.into_parts();
@@ -806,7 +809,8 @@ where
                     boxed_error,
                     transcript,
                 )?;
-                self.register_provable_error(&from, evidence)
+                self.register_provable_error(transcript, evidence);
+                Ok(())
             }
             BoxedReceiveError::Unprovable(error) => {
                 // The party could have been banned while its message was being processed.
@@ -816,8 +820,9 @@ where
             }
             BoxedReceiveError::Echo(error) => {
                 let (_echo_broadcast, normal_broadcast, _direct_message) = processed.message.into_parts();
-                let evidence = Evidence::new_echo_round_error(&from, normal_broadcast, *error)?;
-                self.register_provable_error(&from, evidence)
+                let evidence = Evidence::<P, SP>::new_echo_round_error(&from, normal_broadcast, *error)?;
+                self.register_provable_error(transcript, evidence);
+                Ok(())
             }
             BoxedReceiveError::Local(error) => Err(error),
         }
diff --git a/manul/src/session/transcript.rs b/manul/src/session/transcript.rs
index 33f0187..5af8a49 100644
--- a/manul/src/session/transcript.rs
+++ b/manul/src/session/transcript.rs
@@ -166,6 +166,10 @@ where
             .ok_or_else(|| LocalError::new(format!("No direct messages registered for {from:?} in {round_id:?}")))
     }
 
+    pub fn has_provable_error(&self, from: &SP::Verifier) -> bool {
+        self.provable_errors.contains_key(from)
+    }
+
     pub fn is_banned(&self, from: &SP::Verifier) -> bool {
         self.provable_errors.contains_key(from) || self.unprovable_errors.contains_key(from)
     }
-- 
2.43.0


From 228a372078c72bbaff2d04292f409cece56fb26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 10/18] fix: compare the echoed broadcasts with the main round
 when verifying the evidence

---
 manul/src/session/echo.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/echo.rs b/manul/src/session/echo.rs
index a9ff8c0..8b348e1 100644
--- a/manul/src/session/echo.rs
+++ b/manul/src/session/echo.rs
@@ -74,7 +74,12 @@ impl<Id: PartyId> InvalidEchoError<Id> {
 
         // `from` sent us a correctly signed message but from another round or another session.
         // Provable fault of `from`.
-        if verified_echo.metadata() != metadata {
+        let main_round_id = metadata
+            .round_id()
+            .non_echo()
+            .map_err(|_err| EvidenceError::InvalidEvidence("The attached message is not from an echo round".into()))?;
+        let main_round_metadata = MessageMetadata::new(metadata.session_id(), &main_round_id);
+        if verified_echo.metadata() != &main_round_metadata {
             return Ok(());
         }
 
-- 
2.43.0


From 4c6e28b9268dc2c02399e27fa2dcd4ff60e11b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 11/18] fix: check the guilty party when verifying evidence of
 mismatched broadcasts

---
 manul/src/session/evidence.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/evidence.rs b/manul/src/session/evidence.rs
index fad53f0..d2125cc 100644
--- a/manul/src/session/evidence.rs
+++ b/manul/src/session/evidence.rs
@@ -205,7 +205,7 @@ where
             EvidenceEnum::InvalidEchoBroadcast(evidence) => evidence.verify::<P, SP>(&self.guilty_party, &format),
             EvidenceEnum::InvalidNormalBroadcast(evidence) => evidence.verify::<P, SP>(&self.guilty_party, &format),
             EvidenceEnum::InvalidEcho(evidence) => evidence.verify::<SP>(&self.guilty_party, &format),
-            EvidenceEnum::MismatchedBroadcasts(evidence) => evidence.verify::<SP>(),
+            EvidenceEnum::MismatchedBroadcasts(evidence) => evidence.verify::<SP>(&self.guilty_party),
         }
     }
 }
@@ -253,8 +253,13 @@ pub struct MismatchedBroadcastsEvidence<Id> {
     error: MismatchedBroadcastsError<Id>,
 }
 
-impl<Id> MismatchedBroadcastsEvidence<Id> {
-    fn verify<SP: SessionParameters<Verifier = Id>>(&self) -> Result<(), EvidenceError> {
+impl<Id: PartyId> MismatchedBroadcastsEvidence<Id> {
+    fn verify<SP: SessionParameters<Verifier = Id>>(&self, verifier: &SP::Verifier) -> Result<(), EvidenceError> {
+        if self.error.guilty_party() != verifier {
+            return Err(EvidenceError::InvalidEvidence(
+                "The attached messages were sent by a different party".into(),
+            ));
+        }
         self.error.verify_evidence::<SP>()
     }
 }
-- 
2.43.0


From 4004970345104708f944f578c6bd6c139963dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 12/18] fix: reject crafted evidence of errors that a round
 does not generate

---
 manul/src/protocol/evidence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/manul/src/protocol/evidence.rs b/manul/src/protocol/evidence.rs
index 83ab481..6a0140e 100644
--- a/manul/src/protocol/evidence.rs
+++ b/manul/src/protocol/evidence.rs
@@ -272,7 +272,10 @@ where
         _shared_data: &<<Self::Round as Round<Id>>::Protocol as Protocol<Id>>::SharedData,
         _messages: EvidenceMessages<'_, Id, Self::Round>,
     ) -> Result<(), EvidenceError> {
-        panic!("Methods of `NoProtocolErrors` should not be called during normal operation.")
+        // Can be reached if the evidence was crafted by a malicious party.
+        Err(EvidenceError::InvalidEvidence(
+            "This round does not generate protocol errors".into(),
+        ))
     }
 }
 
-- 
2.43.0


From 26271882fb5f0bc621465d934b9e3fae09a88d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 13/18] fix: do not include the placeholder for the unsent echo
 broadcast in the evidence

---
 manul/src/session/transcript.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/manul/src/session/transcript.rs b/manul/src/session/transcript.rs
index 5af8a49..40d87b0 100644
--- a/manul/src/session/transcript.rs
+++ b/manul/src/session/transcript.rs
@@ -8,7 +8,7 @@ use core::fmt::Debug;
 
 use super::{evidence::Evidence, message::SignedMessagePart, session::SessionParameters, LocalError, RemoteError};
 use crate::{
-    protocol::{DirectMessage, EchoBroadcast, NormalBroadcast, Protocol, RoundId},
+    protocol::{DirectMessage, EchoBroadcast, NormalBroadcast, Protocol, ProtocolMessagePart, RoundId},
     utils::Without,
 };
 
@@ -194,7 +194,12 @@ where
             .get(round_id)
             .cloned()
             .ok_or_else(|| LocalError::new(format!("Echo-broadcasts for {round_id:?} are not in the transcript")))?
-            .without(except_for))
+            .without(except_for)
+            .into_iter()
+            // If this node did not send any echo broadcasts, there is a signed placeholder in place of its message.
+            // It must not leave this node since it can be presented as an invalid message.
+            .filter(|(_id, echo_broadcast)| !echo_broadcast.payload().is_none())
+            .collect())
     }
 }
 
-- 
2.43.0


From 38cb8434b1e802d3a64a6cbd3e452c4ac179fc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 14/18] fix: bind the signature of an echoed broadcast to its
 kind

---
 manul/src/protocol.rs         |  2 +-
 manul/src/protocol/message.rs | 17 ++++++++++-----
 manul/src/session/echo.rs     |  4 ++--
 manul/src/session/evidence.rs |  2 +-
 manul/src/session/message.rs  | 41 ++++++++++++++++++++---------------
 5 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/manul/src/protocol.rs b/manul/src/protocol.rs
index 9a74c83..716e123 100644
--- a/manul/src/protocol.rs
+++ b/manul/src/protocol.rs
@@ -39,7 +39,7 @@ pub(crate) use dyn_round::{Artifact, BoxedReceiveError, DynRound, Payload};
 pub(crate) use evidence::EvidenceProtocolMessage;
 pub(crate) use message::{
     DirectMessage, DirectMessageError, DynProtocolMessage, EchoBroadcast, EchoBroadcastError, NormalBroadcast,
-    NormalBroadcastError, ProtocolMessagePart, ProtocolMessagePartHashable,
+    NormalBroadcastError, PartKind, ProtocolMessagePart, ProtocolMessagePartHashable,
 };
 pub(crate) use rng::BoxedRng;
 pub(crate) use round::NoType;
diff --git a/manul/src/protocol/message.rs b/manul/src/protocol/message.rs
index 09f3cf1..217827a 100644
--- a/manul/src/protocol/message.rs
+++ b/manul/src/protocol/message.rs
@@ -129,6 +129,17 @@ pub(crate) enum PartKind {
     DirectMessage,
 }
 
+impl PartKind {
+    /// A unique tag to be included in the hashed data.
+    pub fn tag(&self) -> u8 {
+        match self {
+            Self::EchoBroadcast => 0,
+            Self::NormalBroadcast => 1,
+            Self::DirectMessage => 2,
+        }
+    }
+}
+
 pub(crate) trait HasPartKind {
     const KIND: PartKind;
 }
@@ -137,11 +148,7 @@ pub(crate) trait HasPartKind {
 pub(crate) trait ProtocolMessagePartHashable: ProtocolMessagePart + HasPartKind {
     fn hash<D: Digest>(&self) -> digest::Output<D> {
         let mut digest = D::new_with_prefix(b"ProtocolMessagePart");
-        match Self::KIND {
-            PartKind::EchoBroadcast => digest.update([0u8]),
-            PartKind::NormalBroadcast => digest.update([1u8]),
-            PartKind::DirectMessage => digest.update([2u8]),
-        }
+        digest.update([Self::KIND.tag()]);
         match self.maybe_message().as_ref() {
             None => digest.update([0u8]),
             Some(payload) => {
diff --git a/manul/src/session/echo.rs b/manul/src/session/echo.rs
index 8b348e1..b421e96 100644
--- a/manul/src/session/echo.rs
+++ b/manul/src/session/echo.rs
@@ -117,7 +117,7 @@ impl<Id> MismatchedBroadcastsError<Id> {
             .into_verified::<SP>(&self.guilty_party)
             .map_err(MessageVerificationError::into_evidence_error)?;
 
-        if we_received.metadata() == echoed_to_us.metadata() && !echoed_to_us.is_hash_of::<SP, _>(&self.we_received) {
+        if we_received.metadata() == echoed_to_us.metadata() && !echoed_to_us.is_hash_of::<SP>(&self.we_received) {
             Ok(())
         } else {
             Err(EvidenceError::InvalidEvidence(
@@ -359,7 +359,7 @@ where
             // `sender` sent us and `from` messages with different payloads,
             // but with correct signatures and the same metadata.
             // Provable fault of `sender`.
-            if !verified_echo.is_hash_of::<SP, _>(previously_received_echo) {
+            if !verified_echo.is_hash_of::<SP>(previously_received_echo) {
                 return Err(BoxedReceiveError::Echo(Box::new(EchoRoundError::MismatchedBroadcasts(
                     MismatchedBroadcastsError {
                         guilty_party: sender.clone(),
diff --git a/manul/src/session/evidence.rs b/manul/src/session/evidence.rs
index d2125cc..7e511c2 100644
--- a/manul/src/session/evidence.rs
+++ b/manul/src/session/evidence.rs
@@ -507,7 +507,7 @@ where
                     return Err(EvidenceError::InvalidEvidence("Invalid echo broadcast metadata".into()));
                 }
 
-                if !verified_echo_hash.is_hash_of::<SP, _>(echo_broadcast) {
+                if !verified_echo_hash.is_hash_of::<SP>(echo_broadcast) {
                     return Err(EvidenceError::InvalidEvidence(
                         "Mismatch between the echoed hash and the original echo broadcast".into(),
                     ));
diff --git a/manul/src/session/message.rs b/manul/src/session/message.rs
index 5463ce5..aa3698f 100644
--- a/manul/src/session/message.rs
+++ b/manul/src/session/message.rs
@@ -12,7 +12,7 @@ use super::{
     LocalError,
 };
 use crate::protocol::{
-    DirectMessage, EchoBroadcast, EvidenceError, NormalBroadcast, ProtocolMessagePartHashable, RoundId,
+    DirectMessage, EchoBroadcast, EvidenceError, NormalBroadcast, PartKind, ProtocolMessagePartHashable, RoundId,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
@@ -107,13 +107,18 @@ pub struct MessageWithMetadata<M> {
     message: M,
 }
 
+// The part kind is included explicitly (even though it is already bound by `message_part_hash`)
+// because in an echoed message the original payload is not available,
+// and we need to be sure it was a hash of a message of a specific kind that was signed.
 fn message_digest<SP: SessionParameters>(
+    part_kind: PartKind,
     metadata: &MessageMetadata,
     message_part_hash: &[u8],
 ) -> Result<SP::Digest, LocalError> {
     let message_part_hash_len =
         u64::try_from(message_part_hash.as_ref().len()).expect("message part hash length does not exceed 18 exabytes");
     Ok(SP::Digest::new_with_prefix(b"SignedMessagePartDigest")
+        .chain_update([part_kind.tag()])
         .chain_update(SP::WireFormat::serialize(metadata)?)
         .chain_update(message_part_hash_len.to_be_bytes())
         .chain_update(message_part_hash))
@@ -125,7 +130,7 @@ impl<M: ProtocolMessagePartHashable> MessageWithMetadata<M> {
         SP: SessionParameters,
     {
         let message_part_hash = self.message.hash::<SP::Digest>();
-        let digest = message_digest::<SP>(&self.metadata, &message_part_hash)?;
+        let digest = message_digest::<SP>(M::KIND, &self.metadata, &message_part_hash)?;
         Ok(digest)
     }
 }
@@ -156,18 +161,6 @@ where
         })
     }
 
-    pub(crate) fn to_signed_hash<SP>(&self) -> SignedMessageHash
-    where
-        SP: SessionParameters,
-    {
-        let message_part_hash = self.message_with_metadata.message.hash::<SP::Digest>();
-        SignedMessageHash {
-            signature: self.signature.clone(),
-            metadata: self.message_with_metadata.metadata.clone(),
-            message_part_hash: message_part_hash.as_ref().into(),
-        }
-    }
-
     pub(crate) fn metadata(&self) -> &MessageMetadata {
         &self.message_with_metadata.metadata
     }
@@ -193,6 +186,20 @@ where
     }
 }
 
+impl SignedMessagePart<EchoBroadcast> {
+    pub(crate) fn to_signed_hash<SP>(&self) -> SignedMessageHash
+    where
+        SP: SessionParameters,
+    {
+        let message_part_hash = self.message_with_metadata.message.hash::<SP::Digest>();
+        SignedMessageHash {
+            signature: self.signature.clone(),
+            metadata: self.message_with_metadata.metadata.clone(),
+            message_part_hash: message_part_hash.as_ref().into(),
+        }
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct VerifiedMessagePart<M> {
     signature: SerializedSignature,
@@ -369,6 +376,7 @@ impl<Verifier> VerifiedMessage<Verifier> {
     }
 }
 
+/// The hash of an echo broadcast along with the signature of the broadcast.
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
 pub(crate) struct SignedMessageHash {
     signature: SerializedSignature,
@@ -389,7 +397,7 @@ impl SignedMessageHash {
     where
         SP: SessionParameters,
     {
-        let digest = message_digest::<SP>(&self.metadata, &self.message_part_hash)?;
+        let digest = message_digest::<SP>(PartKind::EchoBroadcast, &self.metadata, &self.message_part_hash)?;
         let signature = self.signature.deserialize::<SP>()?;
         verifier.verify_digest(digest, &signature)?;
         Ok(VerifiedMessageHash {
@@ -412,10 +420,9 @@ impl VerifiedMessageHash {
         &self.metadata
     }
 
-    pub(crate) fn is_hash_of<SP, M>(&self, message: &SignedMessagePart<M>) -> bool
+    pub(crate) fn is_hash_of<SP>(&self, message: &SignedMessagePart<EchoBroadcast>) -> bool
     where
         SP: SessionParameters,
-        M: ProtocolMessagePartHashable,
     {
         let message_part_hash = message.message_with_metadata.message.hash::<SP::Digest>();
         message_part_hash.as_ref() == self.message_part_hash.as_ref()
-- 
2.43.0


From f98be718b8be8f04c16cce5de3eff5ece5166298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 15/18] fix: surface failures of the tasks spawned by
 par_run_session

---
 manul/src/session/tokio.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index b9f81b4..96de94e 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -4,7 +4,7 @@ use alloc::{format, sync::Arc, vec::Vec};
 
 use rand_chacha::ChaCha20Rng;
 use rand_core::{CryptoRngCore, SeedableRng};
-use tokio::{sync::mpsc, task::JoinHandle};
+use tokio::{sync::mpsc, task::JoinSet};
 use tokio_util::sync::CancellationToken;
 use tracing::{debug, trace};
 
@@ -239,7 +239,7 @@ where
         // sequentially in the host task.
 
         let destinations = session.message_destinations();
-        let mut message_creation_tasks = Vec::new();
+        let mut message_creation_tasks = JoinSet::new();
         for destination in destinations {
             let session = session.clone();
             let my_id = my_id.clone();
@@ -249,7 +249,7 @@ where
             // ensure each task has access to unique randomness.
             // let mut task_rng = ChaCha20Rng::from_rng(rng.clone()).map_err(|_| LocalError::new("Can't fork the RNG"))?;
             let mut task_rng = ChaCha20Rng::from_rng(&mut *rng).map_err(|_| LocalError::new("Can't fork the RNG"))?;
-            let message_creation = tokio::task::spawn_blocking(move || {
+            message_creation_tasks.spawn_blocking(move || {
                 let (message, artifact) = session.make_message(&mut task_rng, &destination)?;
                 debug!("{my_id}: Sending a message to {destination:?}",);
                 let message_out = MessageOut {
@@ -266,22 +266,20 @@ where
                     ))
                 })
             });
-            message_creation_tasks.push(message_creation);
         }
 
-        let mut message_processing_tasks = Vec::new();
+        let mut message_processing_tasks = JoinSet::<Result<(), LocalError>>::new();
         for preprocessed in cached_messages {
             let session = session.clone();
             let processed_tx = processed_tx.clone();
             let my_id = my_id.clone();
-            let message_processing: JoinHandle<Result<(), LocalError>> = tokio::task::spawn_blocking(move || {
+            message_processing_tasks.spawn_blocking(move || {
                 debug!("{my_id}: Applying a cached message");
                 let processed = session.process_message(preprocessed);
                 processed_tx
                     .blocking_send(processed)
                     .map_err(|_err| LocalError::new("Failed to send a processed message"))
             });
-            message_processing_tasks.push(message_processing);
         }
 
         let stop_reason = loop {
@@ -324,20 +322,27 @@ where
                             let session = session.clone();
                             let processed_tx = processed_tx.clone();
                             let my_id = my_id.clone();
-                            let message_processing = tokio::task::spawn_blocking(move || {
+                            message_processing_tasks.spawn_blocking(move || {
                                 debug!("{my_id}: Applying a message from {:?}", message_in.from);
                                 let processed = session.process_message(preprocessed);
                                 processed_tx.blocking_send(processed).map_err(|_err| {
                                     LocalError::new("Failed to send a processed message")
                                 })
                             });
-                            message_processing_tasks.push(message_processing);
                         }
                         None => {
                             trace!("{my_id} Pre-processing complete. Current state: {accum:?}")
                         }
                     }
                 },
+                // Surface the errors in the spawned tasks right away,
+                // since without their results we may not be able to finalize.
+                Some(result) = message_creation_tasks.join_next() => {
+                    result.map_err(|_err| LocalError::new("Failed to join a message creation task"))??;
+                }
+                Some(result) = message_processing_tasks.join_next() => {
+                    result.map_err(|_err| LocalError::new("Failed to join a message processing task"))??;
+                }
                 _ = cancellation.cancelled() => {
                     break StopReason::Cancelled;
                 }
@@ -348,16 +353,12 @@ where
 
         // Join all the handles created in this iteration.
 
-        for message_creation_task in message_creation_tasks {
-            message_creation_task
-                .await
-                .map_err(|_err| LocalError::new("Failed to join a message creation task"))??;
+        while let Some(result) = message_creation_tasks.join_next().await {
+            result.map_err(|_err| LocalError::new("Failed to join a message creation task"))??;
         }
 
-        for message_processing_task in message_processing_tasks {
-            message_processing_task
-                .await
-                .map_err(|_err| LocalError::new("Failed to join a message processing task"))??;
+        while let Some(result) = message_processing_tasks.join_next().await {
+            result.map_err(|_err| LocalError::new("Failed to join a message processing task"))??;
         }
 
         // Drop our copies of `Sender`s to let the channels close.
-- 
2.43.0


From 9c4d0b88eb81334cb0a459574748d1f2f222df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 16/18] fix: let the tasks of par_run_session finish when
 nobody receives their results

---
 manul/src/session/tokio.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index 96de94e..6445be4 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -227,8 +227,11 @@ where
     loop {
         debug!("{my_id}: *** starting round {:?} ***", session.round_id());
 
-        let (processed_tx, mut processed_rx) = mpsc::channel::<ProcessedMessage<SP>>(100);
-        let (outgoing_tx, mut outgoing_rx) = mpsc::channel::<(MessageOut<SP>, ProcessedArtifact<SP>)>(100);
+        // The number of messages in these channels is limited by the number of the spawned tasks.
+        // They must have enough capacity to allow all the tasks to finish even if nobody is receiving,
+        // since we join the tasks at the end of the round.
+        let (processed_tx, mut processed_rx) = mpsc::unbounded_channel::<ProcessedMessage<SP>>();
+        let (outgoing_tx, mut outgoing_rx) = mpsc::unbounded_channel::<(MessageOut<SP>, ProcessedArtifact<SP>)>();
 
         // This is kept in the main task since it's mutable,
         // and we don't want to bother with synchronization.
@@ -258,7 +261,7 @@ where
                     to: destination.clone(),
                     message,
                 };
-                outgoing_tx.blocking_send((message_out, artifact)).map_err(|err| {
+                outgoing_tx.send((message_out, artifact)).map_err(|err| {
                     LocalError::new(format!(
                         "Failed to send a created message from {:?} to {:?}: {err}",
                         session.verifier(),
@@ -277,7 +280,7 @@ where
                 debug!("{my_id}: Applying a cached message");
                 let processed = session.process_message(preprocessed);
                 processed_tx
-                    .blocking_send(processed)
+                    .send(processed)
                     .map_err(|_err| LocalError::new("Failed to send a processed message"))
             });
         }
@@ -325,7 +328,7 @@ where
                             message_processing_tasks.spawn_blocking(move || {
                                 debug!("{my_id}: Applying a message from {:?}", message_in.from);
                                 let processed = session.process_message(preprocessed);
-                                processed_tx.blocking_send(processed).map_err(|_err| {
+                                processed_tx.send(processed).map_err(|_err| {
                                     LocalError::new("Failed to send a processed message")
                                 })
                             });
-- 
2.43.0


From ac3ba90422479d99085b9659813d59a298818eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 17/18] fix: allow executions without any messages in run_sync

---
 manul/src/dev/run_sync.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/manul/src/dev/run_sync.rs b/manul/src/dev/run_sync.rs
index 5fd9c8f..9330622 100644
--- a/manul/src/dev/run_sync.rs
+++ b/manul/src/dev/run_sync.rs
@@ -212,7 +212,7 @@ where
         states.insert(verifier, state);
     }
 
-    loop {
+    while !messages.is_empty() {
         // Pick a random message and deliver it
         let message = messages.pop(rng);
 
@@ -247,13 +247,10 @@ where
             state
         };
         states.insert(message.to.clone(), new_state);
-
-        if messages.is_empty() {
-            trace!("All messages delivered, exiting loop");
-            break;
-        }
     }
 
+    trace!("All messages delivered");
+
     let mut reports = BTreeMap::new();
     for (verifier, state) in states {
         let report = match state {
-- 
2.43.0


From 1bb8aa5ce64a5b3f7670472201841b77b726698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 18/18] fix: do not let a single destination block or fail the
 dispatcher of run_async

---
 manul/src/dev/tokio.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/manul/src/dev/tokio.rs b/manul/src/dev/tokio.rs
index 944456e..1ae9a69 100644
--- a/manul/src/dev/tokio.rs
+++ b/manul/src/dev/tokio.rs
@@ -5,7 +5,7 @@ use alloc::{collections::BTreeMap, format, vec::Vec};
 use rand::Rng;
 use rand_core::CryptoRngCore;
 use signature::Keypair;
-use tokio::sync::mpsc;
+use tokio::sync::mpsc::{self, error::TrySendError};
 use tokio_util::sync::CancellationToken;
 
 use super::run_sync::ExecutionResult;
@@ -46,19 +46,24 @@ where
             let message_idx = rng.gen_range(0..messages.len());
             let outgoing = messages.swap_remove(message_idx);
 
-            txs.get(&outgoing.to)
-                .ok_or_else(|| {
-                    LocalError::new(format!(
-                        "Destination ({:?}) is missing in the map of channels",
-                        outgoing.to
-                    ))
-                })?
-                .send(MessageIn {
+            let tx = txs.get(&outgoing.to).ok_or_else(|| {
+                LocalError::new(format!(
+                    "Destination ({:?}) is missing in the map of channels",
+                    outgoing.to
+                ))
+            })?;
+
+            match tx.try_reserve() {
+                Ok(permit) => permit.send(MessageIn {
                     from: outgoing.from,
                     message: outgoing.message,
-                })
-                .await
-                .map_err(|err| LocalError::new(format!("Could not sent an outgoing message: {err}")))?;
+                }),
+                // We cannot wait for the destination here,
+                // because it may be waiting for us to accept the messages it is sending.
+                Err(TrySendError::Full(())) => messages.push(outgoing),
+                // The destination already finished and does not need this message.
+                Err(TrySendError::Closed(())) => {}
+            }
 
             // Give up execution so that the tasks could process messages.
             tokio::time::sleep(tokio::time::Duration::from_millis(0)).await;
-- 
2.43.0

