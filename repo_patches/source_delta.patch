From faa051ed9eef4a27ba99157ed1ba683f8a6209fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 1/9] fix: reject unknown address versions when decoding
 instead of panicking

The version byte comes from the chain (deposit recipients), so an attacker
could crash any consumer that parses deposits.
---
 stacks-core/src/address.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stacks-core/src/address.rs b/stacks-core/src/address.rs
index a002cb9..950bd71 100644
--- a/stacks-core/src/address.rs
+++ b/stacks-core/src/address.rs
@@ -112,7 +112,10 @@ impl Codec for StacksAddress {
 		let mut version_buffer = [0; 1];
 		data.read_exact(&mut version_buffer)?;
 
-		let version = AddressVersion::from_repr(version_buffer[0]).unwrap();
+		let version =
+			AddressVersion::try_from(version_buffer[0]).map_err(|err| {
+				io::Error::new(io::ErrorKind::InvalidData, err)
+			})?;
 
 		let mut hash_buffer = [0; HASH160_LENGTH];
 		data.read_exact(&mut hash_buffer)?;
-- 
2.43.0


From c82cd88e5a596f48695bb839b1da5e094a8198b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 2/9] fix: refuse contract names shorter than their length
 prefix

A truncated name was accepted, so the decoded principal differed from the
encoded one.
---
 stacks-core/src/contract_name.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stacks-core/src/contract_name.rs b/stacks-core/src/contract_name.rs
index 5326262..088a14c 100644
--- a/stacks-core/src/contract_name.rs
+++ b/stacks-core/src/contract_name.rs
@@ -2,7 +2,7 @@
 use std::{
 	borrow::Borrow,
 	fmt::{Display, Formatter},
-	io::{self, Read},
+	io,
 	ops::Deref,
 };
 
@@ -83,9 +83,8 @@ impl Codec for ContractName {
 		data.read_exact(&mut length_buffer)?;
 		let contract_name_length = length_buffer[0] as usize;
 
-		let mut name_buffer = Vec::with_capacity(contract_name_length);
-		data.take(contract_name_length as u64)
-			.read_to_end(&mut name_buffer)?;
+		let mut name_buffer = vec![0u8; contract_name_length];
+		data.read_exact(&mut name_buffer)?;
 
 		let contract_name_string = String::from_utf8(name_buffer)
 			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
-- 
2.43.0


From 7181a9f407294d428d67a76abffe8db7a7cd9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:10 +0000
Subject: [PATCH 3/9] fix: enforce the contract name length bounds

---
 stacks-core/src/contract_name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks-core/src/contract_name.rs b/stacks-core/src/contract_name.rs
index 088a14c..dfea94c 100644
--- a/stacks-core/src/contract_name.rs
+++ b/stacks-core/src/contract_name.rs
@@ -58,7 +58,7 @@ impl ContractName {
 	/// Create a new contract name from the given string
 	pub fn new(contract_name: &str) -> Result<Self, ContractNameError> {
 		if contract_name.len() < CONTRACT_MIN_NAME_LENGTH
-			&& contract_name.len() > CONTRACT_MAX_NAME_LENGTH
+			|| contract_name.len() > CONTRACT_MAX_NAME_LENGTH
 		{
 			Err(ContractNameError::InvalidLength)
 		} else if CONTRACT_NAME_REGEX.is_match(contract_name) {
-- 
2.43.0


From 73f364e83059d1fdf34ca69ff3da00338fd8a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:41 +0000
Subject: [PATCH 4/9] fix: c32 decoding of zero aliases and of empty checked
 strings

---
 stacks-core/src/c32.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stacks-core/src/c32.rs b/stacks-core/src/c32.rs
index 3309db4..e76d638 100644
--- a/stacks-core/src/c32.rs
+++ b/stacks-core/src/c32.rs
@@ -161,7 +161,8 @@ pub fn decode(input: impl AsRef<str>) -> Result<Vec<u8>, C32Error> {
 	}
 
 	for byte in input.iter() {
-		if *byte == b'0' {
+		// 'O' and 'o' are aliases of '0'
+		if matches!(*byte, b'0' | b'O' | b'o') {
 			decoded.push(0);
 		} else {
 			break;
@@ -198,7 +199,7 @@ pub fn version_check_decode(
 ) -> Result<(AddressVersion, Vec<u8>), C32Error> {
 	let input = input.as_ref();
 
-	if !input.is_ascii() {
+	if input.is_empty() || !input.is_ascii() {
 		return Err(C32Error::InvalidC32);
 	}
 
-- 
2.43.0


From 88af777bbc741926d8ea7e5bb93540e5c1fed9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:41 +0000
Subject: [PATCH 5/9] fix: widening a Uint copies only the words it has

---
 stacks-core/src/uint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks-core/src/uint.rs b/stacks-core/src/uint.rs
index 6256ad3..c53feff 100644
--- a/stacks-core/src/uint.rs
+++ b/stacks-core/src/uint.rs
@@ -224,7 +224,7 @@ impl<const N: usize> Uint<N> {
 
 		let mut dest = [0u64; M];
 
-		dest[..M].copy_from_slice(&self.0[..M]);
+		dest[..N].copy_from_slice(&self.0);
 
 		Uint(dest)
 	}
-- 
2.43.0


From 246f114d809eabca6222224dcbdb80a86fa9e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:42 +0000
Subject: [PATCH 6/9] fix: finish serialization of commit reveal deposit data

---
 sbtc-core/src/operations/commit_reveal/deposit.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sbtc-core/src/operations/commit_reveal/deposit.rs b/sbtc-core/src/operations/commit_reveal/deposit.rs
index 20a7f62..fc38f66 100644
--- a/sbtc-core/src/operations/commit_reveal/deposit.rs
+++ b/sbtc-core/src/operations/commit_reveal/deposit.rs
@@ -23,9 +23,7 @@ impl Codec for DepositData {
 	fn codec_serialize<W: io::Write>(&self, dest: &mut W) -> io::Result<()> {
 		Codec::codec_serialize(&Opcode::Deposit, dest)?;
 		self.principal.codec_serialize(dest)?;
-		self.reveal_fee.codec_serialize(dest)?;
-
-		todo!()
+		self.reveal_fee.codec_serialize(dest)
 	}
 
 	fn codec_deserialize<R: io::Read>(data: &mut R) -> io::Result<Self>
-- 
2.43.0


From ba03518013669005f672eab31bd47ac94d5a8b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:56 +0000
Subject: [PATCH 7/9] fix: reordering outputs keeps every output of the
 transaction

---
 sbtc-core/src/operations/op_return/utils.rs | 34 +++++++++------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/sbtc-core/src/operations/op_return/utils.rs b/sbtc-core/src/operations/op_return/utils.rs
index b6b68d5..91d9062 100644
--- a/sbtc-core/src/operations/op_return/utils.rs
+++ b/sbtc-core/src/operations/op_return/utils.rs
@@ -1,7 +1,5 @@
 //! Utilities for sBTC OP_RETURN transactions
 
-use std::collections::{BTreeMap, HashMap};
-
 use bdk::bitcoin::{
 	blockdata::{opcodes::all::OP_RETURN, script::Builder},
 	Script, TxOut,
@@ -20,23 +18,21 @@ pub fn reorder_outputs(
 	outputs: impl IntoIterator<Item = TxOut>,
 	order: impl IntoIterator<Item = (Script, u64)>,
 ) -> Vec<TxOut> {
-	let indices: HashMap<(Script, u64), usize> = order
-		.into_iter()
-		.enumerate()
-		.map(|(idx, val)| (val, idx))
-		.collect();
+	let mut remaining: Vec<TxOut> = outputs.into_iter().collect();
+	let mut ordered = Vec::with_capacity(remaining.len());
+
+	for (script, value) in order {
+		let position = remaining.iter().position(|txout| {
+			txout.script_pubkey == script && txout.value == value
+		});
+
+		if let Some(position) = position {
+			ordered.push(remaining.remove(position));
+		}
+	}
 
-	let outputs_ordered: BTreeMap<usize, TxOut> = outputs
-		.into_iter()
-		.map(|txout| {
-			(
-				*indices
-					.get(&(txout.script_pubkey.clone(), txout.value))
-					.unwrap_or(&usize::MAX), // Change amount
-				txout,
-			)
-		})
-		.collect();
+	// Outputs that were not asked for, i.e. change, go last
+	ordered.extend(remaining);
 
-	outputs_ordered.into_values().collect()
+	ordered
 }
-- 
2.43.0


From c803e660c15da68af47c1bdb92c72d28b3b6d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 8/9] fix: parse only operations that carry the magic bytes of
 the network

---
 sbtc-core/src/operations/op_return/deposit.rs            | 4 ++++
 sbtc-core/src/operations/op_return/withdrawal_request.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sbtc-core/src/operations/op_return/deposit.rs b/sbtc-core/src/operations/op_return/deposit.rs
index 7c5781f..5aafe55 100644
--- a/sbtc-core/src/operations/op_return/deposit.rs
+++ b/sbtc-core/src/operations/op_return/deposit.rs
@@ -147,6 +147,10 @@ impl Deposit {
 		let deposit_data = DepositOutputData::codec_deserialize(&mut data)
 			.map_err(|_| DepositParseError::NotSbtcOp)?;
 
+		if magic_bytes(deposit_data.network) != magic_bytes(network) {
+			return Err(DepositParseError::NotSbtcOp);
+		}
+
 		let amount_output = output_iter
 			.next()
 			.ok_or(DepositParseError::InvalidOutputs)?;
diff --git a/sbtc-core/src/operations/op_return/withdrawal_request.rs b/sbtc-core/src/operations/op_return/withdrawal_request.rs
index 2abf998..fce733b 100644
--- a/sbtc-core/src/operations/op_return/withdrawal_request.rs
+++ b/sbtc-core/src/operations/op_return/withdrawal_request.rs
@@ -124,6 +124,10 @@ pub fn try_parse_withdrawal_request(
 		WithdrawalRequestDataOutputData::codec_deserialize(&mut data)
 			.map_err(|_| SBTCError::NotSBTCOperation)?;
 
+	if magic_bytes(withdrawal_data.network()) != magic_bytes(network) {
+		return Err(SBTCError::NotSBTCOperation);
+	}
+
 	let recipient_pubkey_output =
 		output_iter.next().ok_or(SBTCError::NotSBTCOperation)?;
 
-- 
2.43.0


From 4b756c84bf334da4e5e8cb2e218587eb1925e815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:35 +0000
Subject: [PATCH 9/9] fix: check the public key setup transaction again after a
 restart

---
 romeo/src/state.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index c8e0701..0223d24 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -76,8 +76,16 @@ impl State {
 			}
 			State::ContractPublicKeySetup {
 				stacks_block_height,
+				public_key_setup,
 				..
 			} => {
+				if let TransactionRequest::Acknowledged {
+					has_pending_task, ..
+				} = public_key_setup
+				{
+					*has_pending_task = false;
+				}
+
 				vec![Task::FetchStacksBlock(*stacks_block_height + 1)]
 			}
 			State::Initialized {
-- 
2.43.0

