From 3e2ad50a250f10854002918d5da6f6dc4940b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 01/17] fix: pos::decode() failed on valid streams when the
 rest of a 64-bit word is shorter than a symbol

---
 src/pos/encoding.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pos/encoding.cpp b/src/pos/encoding.cpp
index 68f67f0..4cc16f9 100644
--- a/src/pos/encoding.cpp
+++ b/src/pos/encoding.cpp
@@ -92,7 +92,8 @@ std::vector<uint8_t> decode(const std::vector<uint64_t>& bit_stream, const uint6
 
 	while(out.size() < num_symbols)
 	{
-		if(bits < 32) {
+		// the rest of a word can be less than one symbol (up to 32 bits)
+		while(bits < 32) {
 			const auto index = offset / 64;
 			if(index < bit_stream.size()) {
 				const uint32_t count = std::min<uint32_t>(64 - (offset % 64), 64 - bits);
@@ -101,6 +102,8 @@ std::vector<uint8_t> decode(const std::vector<uint64_t>& bit_stream, const uint6
 				bits += count;
 			} else if(bits == 0) {
 				throw std::logic_error("bit stream underflow");
+			} else {
+				break;
 			}
 		}
 		const auto sym = decode_symbol(buffer);
-- 
2.43.0


From dbb7149bafee3ba18388ab279ec11a54053c397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 02/17] fix: avoid undefined shift by the full width in
 rotl_32() / rotl_64()

---
 include/mmx/pos/util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mmx/pos/util.h b/include/mmx/pos/util.h
index 6439538..8b52351 100644
--- a/include/mmx/pos/util.h
+++ b/include/mmx/pos/util.h
@@ -50,7 +50,7 @@ inline uint32_t rotl_32(const uint32_t v, int bits)
 #ifdef _MSC_VER
 	return _rotl(v, bits);
 #else
-	return (v << bits) | (v >> (32 - bits));
+	return (v << (bits & 31)) | (v >> (-bits & 31));
 #endif
 }
 
@@ -59,7 +59,7 @@ inline uint64_t rotl_64(const uint64_t v, int bits)
 #ifdef _MSC_VER
 	return _rotl64(v, bits);
 #else
-	return (v << bits) | (v >> (64 - bits));
+	return (v << (bits & 63)) | (v >> (-bits & 63));
 #endif
 }
 
-- 
2.43.0


From e413bca6bab95d63f6fc5bad31671c1eaf55cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 03/17] fix: to_amount(double) accepted NaN and values of 2^128
 or more (undefined conversion)

---
 include/mmx/utils.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mmx/utils.h b/include/mmx/utils.h
index 6c521a1..dc32faa 100644
--- a/include/mmx/utils.h
+++ b/include/mmx/utils.h
@@ -71,12 +71,15 @@ uint128 to_amount(const double value, const int decimals)
 	if(decimals < 0 || decimals > 18) {
 		throw std::runtime_error("invalid decimals: " + std::to_string(decimals));
 	}
-	if(value == std::numeric_limits<double>::quiet_NaN()) {
+	if(std::isnan(value)) {
 		throw std::runtime_error("invalid value: NaN");
 	}
 	if(value < 0) {
 		throw std::runtime_error("negative value: " + std::to_string(value));
 	}
+	if(value >= pow(2, 128)) {
+		throw std::runtime_error("amount overflow: " + std::to_string(value));
+	}
 	auto shift = uint128_1;
 	for(int i = 0; i < decimals; ++i) {
 		shift *= 10;
-- 
2.43.0


From 0f49ee279850922285fb9b004581e0d1084d6b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 04/17] fix: fixed128 silently wrapped around on decimal text
 and amounts out of range

---
 src/fixed128.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/fixed128.cpp b/src/fixed128.cpp
index 9ccaf5d..0b335aa 100644
--- a/src/fixed128.cpp
+++ b/src/fixed128.cpp
@@ -26,6 +26,15 @@ static uint64_t calc_divider(const int decimals)
 
 const uint64_t fixed128::divider = calc_divider(fixed128::decimals);
 
+static uint128_t safe_mul(const uint128_t& value, const uint64_t factor)
+{
+	const auto tmp = uint256_t(value) * factor;
+	if(tmp.upper()) {
+		throw std::logic_error("fixed128 overflow");
+	}
+	return tmp;
+}
+
 
 fixed128::fixed128(const double& v)
 {
@@ -57,8 +66,7 @@ fixed128::fixed128(const std::string& str)
 		if(integer.empty() || integer.find_first_not_of("0123456789") != std::string::npos) {
 			throw std::logic_error("invalid integer part: '" + integer + "'");
 		}
-		fixed = uint128_t(integer, 10);
-		fixed *= divider;
+		fixed = safe_mul(uint128_t(integer, 10), divider);
 
 		std::string fract;
 		if(dec_pos != std::string::npos) {
@@ -74,6 +82,9 @@ fixed128::fixed128(const std::string& str)
 					lower *= 10;
 				}
 				fixed += lower;
+				if(fixed < lower) {
+					throw std::logic_error("fixed128 overflow");
+				}
 			}
 		}
 		if(exp_pos != std::string::npos) {
@@ -83,7 +94,7 @@ fixed128::fixed128(const std::string& str)
 			}
 			if(exp_10 >= 0) {
 				for(int i = 0; i < exp_10; ++i) {
-					fixed *= 10;
+					fixed = safe_mul(fixed, 10);
 				}
 			} else {
 				for(int i = exp_10; i < 0; ++i) {
@@ -92,7 +103,7 @@ fixed128::fixed128(const std::string& str)
 			}
 		}
 	} else {
-		fixed = uint128_t(str, 10) * divider;
+		fixed = safe_mul(uint128_t(str, 10), divider);
 	}
 }
 
@@ -127,7 +138,7 @@ uint128 fixed128::to_amount(const int decimals) const
 		}
 	} else {
 		for(int i = fixed128::decimals; i < decimals; ++i) {
-			amount *= 10;
+			amount = safe_mul(amount, 10);
 		}
 	}
 	return amount;
-- 
2.43.0


From 56a862603fa90525a89dedf5e8d38a96ab12945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 05/17] fix: vm: use-after-free when copying an array or map
 over its last reference

---
 src/vm/Engine.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/vm/Engine.cpp b/src/vm/Engine.cpp
index 874a4f2..e195cbc 100644
--- a/src/vm/Engine.cpp
+++ b/src/vm/Engine.cpp
@@ -253,14 +253,16 @@ var_t* Engine::write(std::unique_ptr<var_t>& var, const uint64_t* dst, const var
 			if(!dst) {
 				throw std::logic_error("cannot assign array here");
 			}
-			const auto& asrc = (const array_t&)src;
+			// assign() might delete src, if var holds the last reference to it
+			const auto src_size = ((const array_t&)src).size;
+			const auto src_address = ((const array_t&)src).address;
 			{
-				auto tmp = std::make_unique<array_t>(asrc.size);
+				auto tmp = std::make_unique<array_t>(src_size);
 				tmp->address = *dst;
 				assign(var, std::move(tmp));
 			}
-			for(uint64_t i = 0; i < asrc.size; ++i) {
-				write_entry(*dst, i, read_entry_fail(asrc.address, i));
+			for(uint64_t i = 0; i < src_size; ++i) {
+				write_entry(*dst, i, read_entry_fail(src_address, i));
 				check_gas();
 			}
 			break;
@@ -272,14 +274,15 @@ var_t* Engine::write(std::unique_ptr<var_t>& var, const uint64_t* dst, const var
 			if(src.flags & FLAG_STORED) {
 				throw std::logic_error("cannot clone map from storage");
 			}
-			const auto& msrc = (const map_t&)src;
+			// assign() might delete src, if var holds the last reference to it
+			const auto src_address = ((const map_t&)src).address;
 			{
 				auto tmp = std::make_unique<map_t>();
 				tmp->address = *dst;
 				assign(var, std::move(tmp));
 			}
-			const auto begin = entries.lower_bound(std::make_pair(msrc.address, 0));
-			for(auto iter = begin; iter != entries.end() && iter->first.first == msrc.address; ++iter) {
+			const auto begin = entries.lower_bound(std::make_pair(src_address, 0));
+			for(auto iter = begin; iter != entries.end() && iter->first.first == src_address; ++iter) {
 				if(auto value = iter->second.get()) {
 					if((value->flags & FLAG_DELETED) == 0) {
 						write_entry(*dst, iter->first.second, *value);
-- 
2.43.0


From 49fcec4343c6c3b136c55bb0fe89777f4df11c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 06/17] fix: vm: use-after-free in pop_back() over the last
 reference to the array

---
 src/vm/Engine.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vm/Engine.cpp b/src/vm/Engine.cpp
index e195cbc..cfffcd7 100644
--- a/src/vm/Engine.cpp
+++ b/src/vm/Engine.cpp
@@ -337,8 +337,14 @@ void Engine::pop_back(const uint64_t dst, const uint64_t& src)
 	const auto index = array.size - 1;
 	write(dst, read_entry_fail(src, index));
 	erase_entry(src, index);
-	array.size--;
-	array.flags |= FLAG_DIRTY;
+
+	// write() might have deleted array, if dst was the last reference to it
+	if(auto var = read(src, true)) {
+		if(var->type == TYPE_ARRAY) {
+			((array_t*)var)->size = index;
+			var->flags |= FLAG_DIRTY;
+		}
+	}
 }
 
 var_t* Engine::write_entry(const uint64_t dst, const uint64_t key, const var_t& src)
-- 
2.43.0


From 0e902a0a5ea0766e0fb94e0a309aa3ebf4a4ecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 07/17] fix: vm: pop_back() was able to modify the read-only
 deposit array

---
 src/vm/Engine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vm/Engine.cpp b/src/vm/Engine.cpp
index cfffcd7..105bcf1 100644
--- a/src/vm/Engine.cpp
+++ b/src/vm/Engine.cpp
@@ -331,6 +331,9 @@ void Engine::pop_back(const uint64_t dst, const uint64_t& src)
 		throw std::logic_error("pop_back(): dst == src");
 	}
 	auto& array = read_fail<array_t>(src, TYPE_ARRAY);
+	if(array.flags & FLAG_CONST) {
+		throw std::logic_error("read-only memory at " + to_hex(src));
+	}
 	if(array.size == 0) {
 		throw std::logic_error("pop_back() underflow at " + to_hex(dst));
 	}
-- 
2.43.0


From 2a85e5c89a7cded3b260415ad2238d90d1ab6265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 08/17] fix: vm: endless recursion and unbounded output when
 converting self-referencing values

---
 src/vm_interface.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/vm_interface.cpp b/src/vm_interface.cpp
index 1bc37e4..d32e19f 100644
--- a/src/vm_interface.cpp
+++ b/src/vm_interface.cpp
@@ -295,8 +295,15 @@ void assign(std::shared_ptr<vm::Engine> engine, const uint64_t dst, const vnx::V
 	vnx::accept(visitor, value);
 }
 
-vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
+static vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var, size_t call_depth)
 {
+	if(++call_depth > vm::MAX_COPY_RECURSION) {
+		throw std::runtime_error("convert recursion overflow");
+	}
+	// values can be referenced multiple times, so the result could be a lot larger than what is in memory
+	engine->gas_used += WRITE_COST + (num_bytes(var) * WRITE_32_BYTE_COST) / 32;
+	engine->check_gas();
+
 	if(var) {
 		switch(var->type) {
 			case vm::TYPE_NIL:
@@ -306,7 +313,7 @@ vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
 			case vm::TYPE_FALSE:
 				return vnx::Variant(false);
 			case vm::TYPE_REF:
-				return convert(engine, engine->read(((const vm::ref_t*)var)->address));
+				return convert(engine, engine->read(((const vm::ref_t*)var)->address), call_depth);
 			case vm::TYPE_UINT: {
 				const auto& value = ((const vm::uint_t*)var)->value;
 				if(value >> 64 == 0) {
@@ -322,7 +329,7 @@ vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
 				const auto array = (const vm::array_t*)var;
 				std::vector<vnx::Variant> tmp;
 				for(uint32_t i = 0; i < array->size; ++i) {
-					tmp.push_back(convert(engine, engine->read_entry(array->address, i)));
+					tmp.push_back(convert(engine, engine->read_entry(array->address, i), call_depth));
 				}
 				return vnx::Variant(tmp);
 			}
@@ -333,7 +340,7 @@ vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
 				}
 				std::map<vnx::Variant, vnx::Variant> tmp;
 				for(const auto& entry : engine->find_entries(map->address)) {
-					tmp[convert(engine, engine->read(entry.first))] = convert(engine, entry.second);
+					tmp[convert(engine, engine->read(entry.first), call_depth)] = convert(engine, entry.second, call_depth);
 				}
 				bool is_object = true;
 				for(const auto& entry : tmp) {
@@ -358,6 +365,11 @@ vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
 	return vnx::Variant();
 }
 
+vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
+{
+	return convert(engine, var, 0);
+}
+
 vnx::Variant read(std::shared_ptr<vm::Engine> engine, const uint64_t address)
 {
 	return convert(engine, engine->read(address));
-- 
2.43.0


From 3e6f7cf5eae228e686c297f066a681e4516ec05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:57 +0000
Subject: [PATCH 09/17] fix: vm: constants of type REF allowed endless copying
 without gas

---
 src/vm_interface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vm_interface.cpp b/src/vm_interface.cpp
index d32e19f..aab9a61 100644
--- a/src/vm_interface.cpp
+++ b/src/vm_interface.cpp
@@ -55,6 +55,9 @@ void load(	std::shared_ptr<vm::Engine> engine,
 {
 	uint64_t dst = 0;
 	for(auto& var : read_constants(binary)) {
+		if(var->type == vm::TYPE_REF) {
+			throw std::runtime_error("invalid constant type: " + to_string(var->type));
+		}
 		if(dst < vm::MEM_EXTERN) {
 			engine->assign(dst++, std::move(var));
 		}
-- 
2.43.0


From 781d8d154aa6e78d5c98d205c4ba2d3f924f2a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 10/17] fix: a crash during a block merge left a duplicate
 block behind

When more than one source block was left, the second one was compared to the first one (which
was just deleted) instead of to the merged block, so it was kept.
---
 src/DataBase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DataBase.cpp b/src/DataBase.cpp
index 70573df..6b0acf6 100644
--- a/src/DataBase.cpp
+++ b/src/DataBase.cpp
@@ -165,6 +165,7 @@ Table::Table(const std::string& root_path, const options_t& options)
 			} else {
 				block->file.remove();
 				debug_log << "Deleted " << block->name << std::endl;
+				continue;
 			}
 			prev = block;
 		}
-- 
2.43.0


From fdaa658558e0cfeeb875789d30a59332c84ef9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 11/17] fix: a table forgot its version when its log was
 cleared

flush() truncated the log without recording the current version (or without flushing that record),
so a table went back to the version of its last entry when it was opened next, and DataBase::recover()
reverted all other tables with it. The log is now replaced in one step by one which has the version.
---
 include/mmx/DataBase.h |  2 ++
 src/DataBase.cpp       | 30 ++++++++++++++++++++----------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/mmx/DataBase.h b/include/mmx/DataBase.h
index 4991cf5..894fd2f 100644
--- a/include/mmx/DataBase.h
+++ b/include/mmx/DataBase.h
@@ -203,6 +203,8 @@ private:
 
 	std::shared_ptr<block_t> rewrite(std::list<std::shared_ptr<block_t>> blocks, const uint32_t level) const;
 
+	void reset_log();
+
 	void check_rewrite();
 
 	void write_block_header(vnx::TypeOutput& out, std::shared_ptr<const block_t> block) const;
diff --git a/src/DataBase.cpp b/src/DataBase.cpp
index 6b0acf6..7b3ae0d 100644
--- a/src/DataBase.cpp
+++ b/src/DataBase.cpp
@@ -526,14 +526,7 @@ void Table::flush()
 
 	if(mem_block.empty())
 	{
-		write_log.open("wb");
-		write_log.lock_exclusive();
-		{
-			const std::string cmd = "reset";
-			write_entry_sum(write_log.out, -1,
-					std::make_shared<db_val_t>(cmd.c_str(), cmd.size()),
-					std::make_shared<db_val_t>(&curr_version, sizeof(curr_version)));
-		}
+		reset_log();
 		debug_log << "Force flushed at version " << curr_version << std::endl;
 		return;
 	}
@@ -570,8 +563,7 @@ void Table::flush()
 	mem_block_size = 0;
 
 	// clear log after writing block
-	write_log.open("wb");
-	write_log.lock_exclusive();
+	reset_log();
 
 	debug_log << "Flushed " << block->name << " with " << block->index.size() << " / " << block->total_count
 			<< " entries, min_version = " << block->min_version << ", max_version = " << block->max_version
@@ -580,6 +572,24 @@ void Table::flush()
 	check_rewrite();
 }
 
+void Table::reset_log()
+{
+	const auto path = root_path + "/write_log.dat";
+
+	// replace log in one step, to never forget the current version
+	write_log.open(path + ".tmp", "wb");
+	{
+		const std::string cmd = "reset";
+		write_entry_sum(write_log.out, -1,
+				std::make_shared<db_val_t>(cmd.c_str(), cmd.size()),
+				std::make_shared<db_val_t>(&curr_version, sizeof(curr_version)));
+	}
+	write_log.close();
+	write_log.rename(path);
+	write_log.open("ab");
+	write_log.lock_exclusive();
+}
+
 std::shared_ptr<Table::block_t>
 Table::rewrite(std::list<std::shared_ptr<block_t>> blocks, const uint32_t level) const
 {
-- 
2.43.0


From 08b695586f56a237399da7395cb9c2aca9e9663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 12/17] fix: Table::Iterator skipped entries when it changed
 direction

seek_next() moved past the successor in every block (and in memory) which does not have the key
itself, and seek_for_prev() found nothing when no key is greater.
---
 src/DataBase.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/DataBase.cpp b/src/DataBase.cpp
index 7b3ae0d..034bf3c 100644
--- a/src/DataBase.cpp
+++ b/src/DataBase.cpp
@@ -932,7 +932,7 @@ void Table::Iterator::seek(std::shared_ptr<db_val_t> key, const int mode)
 				iter = mem_index.end();
 			}
 		} else if(mode > 0) {
-			if(iter != mem_index.end()) {
+			if(iter != mem_index.end() && (!key || *iter->first == *key)) {
 				iter++;
 			}
 		}
@@ -978,10 +978,13 @@ void Table::Iterator::seek(const std::list<std::shared_ptr<block_t>>& blocks, st
 			read_key_at(block->file, block->index[--pos], version, res);
 		}
 		else if(mode > 0) {
-			if(pos + 1 >= end) {
+			if(is_match || !key) {
+				pos++;
+			}
+			if(pos >= end) {
 				continue;
 			}
-			read_key_at(block->file, block->index[++pos], version, res);
+			read_key_at(block->file, block->index[pos], version, res);
 		}
 		if(!res) {
 			continue;
@@ -1007,7 +1010,9 @@ void Table::Iterator::seek_prev(std::shared_ptr<db_val_t> key)
 void Table::Iterator::seek_for_prev(std::shared_ptr<db_val_t> key_)
 {
 	seek(key_);
-	if(is_valid() && *key() != *key_) {
+	if(!is_valid()) {
+		seek_last();
+	} else if(*key() != *key_) {
 		prev();
 	}
 }
-- 
2.43.0


From cfa904be729be7f812517a8617911df1064270d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 13/17] fix: validate a transaction with exec_result exactly as
 without: execution inputs / outputs cost was missing for failed ones and
 reduced the gas limit of others, such that a farmer's own block was invalid

---
 src/Node_validate.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Node_validate.cpp b/src/Node_validate.cpp
index 6ba04bd..3cc35c4 100644
--- a/src/Node_validate.cpp
+++ b/src/Node_validate.cpp
@@ -625,9 +625,11 @@ Node::validate(	std::shared_ptr<const Transaction> tx,
 	}
 	const uint64_t gas_limit = std::min(
 			fee_to_cost<mmx::static_failure>(tx->max_fee_amount, tx->fee_ratio), params->max_tx_cost);
-	const uint64_t static_fee = cost_to_fee<mmx::static_failure>(tx->static_cost, tx->fee_ratio);
+	// execution inputs / outputs are added after execution, same as when there is no result yet
+	const uint64_t static_cost = tx->static_cost - (tx->exec_result ? tx->exec_result->calc_cost(params) : 0);
+	const uint64_t static_fee = cost_to_fee<mmx::static_failure>(static_cost, tx->fee_ratio);
 
-	uint64_t tx_cost = tx->static_cost;
+	uint64_t tx_cost = static_cost;
 	std::vector<txin_t> exec_inputs;
 	std::vector<txout_t> exec_outputs;
 	balance_cache_t balance_cache(&balance_table);
@@ -804,13 +806,11 @@ Node::validate(	std::shared_ptr<const Transaction> tx,
 		handle_implicit_deposit(
 				exec_outputs, amounts, tx->id, bool(tx->deploy), context->height >= params->hardfork2_height);
 
-		if(!tx->exec_result) {
-			for(const auto& in: exec_inputs) {
-				tx_cost += in.calc_cost(params);
-			}
-			for(const auto& out: exec_outputs) {
-				tx_cost += out.calc_cost(params);
-			}
+		for(const auto& in: exec_inputs) {
+			tx_cost += in.calc_cost(params);
+		}
+		for(const auto& out: exec_outputs) {
+			tx_cost += out.calc_cost(params);
 		}
 		if(tx_cost > params->max_tx_cost) {
 			throw mmx::static_failure("transaction cost > max_tx_cost");
-- 
2.43.0


From ed07a5b270583a8347607f5915bd1360ab6bce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 14/17] fix: do not include transactions in a block which were
 executed on top of a transaction that is left out

---
 src/Node_update.cpp | 77 +++++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/src/Node_update.cpp b/src/Node_update.cpp
index ebb4365..26cf7b6 100644
--- a/src/Node_update.cpp
+++ b/src/Node_update.cpp
@@ -840,9 +840,36 @@ std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 	std::vector<tx_pool_t> result;
 	balance_cache_t balance_cache(&balance_table);
 
+	// transactions which were executed but not selected, plus all which come after them on the same contract
+	std::unordered_set<hash_t> dropped;
+
+	const auto is_dropped = [&context, &dropped](const hash_t& txid) -> bool {
+		const auto iter = context->wait_map.find(txid);
+		if(iter != context->wait_map.end()) {
+			for(const auto& prev : iter->second) {
+				if(dropped.count(prev)) {
+					return true;
+				}
+			}
+		}
+		return false;
+	};
+
+	const uint32_t N = params->min_fee_ratio.size();
+	std::vector<uint64_t> band_avail(N);
+	for(uint64_t i = 0; i < N; ++i) {
+		band_avail[i] = ((i + 1) * params->max_block_size) / N - (i * params->max_block_size) / N;
+	}
+	uint32_t i = N ? N - 1 : 0;
+
 	// select final set of transactions
 	for(auto& entry : tx_list)
 	{
+		if(is_dropped(entry.tx->id)) {
+			// result depends on a transaction which is not part of the block
+			dropped.insert(entry.tx->id);
+			continue;
+		}
 		if(entry.is_skipped) {
 			num_skipped++;
 			continue;
@@ -854,6 +881,7 @@ std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 		const auto tx = entry.tx;
 
 		if(static_cost + tx->static_cost > params->max_block_size || total_cost + entry.cost > params->max_block_cost) {
+			dropped.insert(tx->id);
 			continue;
 		}
 		bool passed = true;
@@ -877,8 +905,26 @@ std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 			}
 		}
 		if(!passed) {
+			dropped.insert(tx->id);
 			continue;
 		}
+		if(N) {
+			while(i && (!band_avail[i] || tx->fee_ratio < params->min_fee_ratio[i] * 1024)) {
+				i--;
+			}
+			if(tx->static_cost > band_avail[i]) {
+				if(i) {
+					// we assume band size is always >= max_tx_cost (so band_avail never goes negative here)
+					band_avail[i - 1] -= tx->static_cost - band_avail[i];
+					band_avail[i] = 0;
+				} else {
+					dropped.insert(tx->id);
+					continue;	// no room left for this tx
+				}
+			} else {
+				band_avail[i] -= tx->static_cost;
+			}
+		}
 		balance_cache.apply(tmp_cache);
 
 		total_cost += entry.cost;
@@ -888,36 +934,7 @@ std::vector<Node::tx_pool_t> Node::validate_for_block(const int64_t deadline_ms)
 	if(num_skipped) {
 		log(WARN) << "Skipped " << num_skipped << " transactions due to block creation deadline";
 	}
-
-	const uint32_t N = params->min_fee_ratio.size();
-	if(N == 0) {
-		return result;
-	}
-	std::vector<uint64_t> band_avail(N);
-	for(uint64_t i = 0; i < N; ++i) {
-		band_avail[i] = ((i + 1) * params->max_block_size) / N - (i * params->max_block_size) / N;
-	}
-	uint32_t i = N - 1;
-	std::vector<tx_pool_t> out;
-	for(const auto& entry : result) {
-		const auto& tx = entry.tx;
-		while(i && (!band_avail[i] || tx->fee_ratio < params->min_fee_ratio[i] * 1024)) {
-			i--;
-		}
-		if(tx->static_cost > band_avail[i]) {
-			if(i) {
-				// we assume band size is always >= max_tx_cost (so band_avail never goes negative here)
-				band_avail[i - 1] -= tx->static_cost - band_avail[i];
-				band_avail[i] = 0;
-			} else {
-				continue;	// no room left for this tx
-			}
-		} else {
-			band_avail[i] -= tx->static_cost;
-		}
-		out.push_back(entry);
-	}
-	return out;
+	return result;
 }
 
 std::shared_ptr<const Block> Node::make_block(
-- 
2.43.0


From a6d2f6cf9e782bab231f7d02abb34411ae750757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 15/17] fix: total supply was not reduced when a block burns
 more than it creates

---
 src/Node.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/Node.cpp b/src/Node.cpp
index 89f5071..218fde3 100644
--- a/src/Node.cpp
+++ b/src/Node.cpp
@@ -1050,7 +1050,7 @@ void Node::apply(	std::shared_ptr<const Block> block,
 			}
 			prefetch_balances(keys);
 		}
-		std::unordered_map<addr_t, uint128_t> supply_delta;
+		std::unordered_map<addr_t, std::pair<uint128, uint128>> supply_delta;	// [currency => [created, removed]]
 
 		for(const auto& out : block_outputs)
 		{
@@ -1060,7 +1060,7 @@ void Node::apply(	std::shared_ptr<const Block> block,
 			}
 			txio_log.insert(std::make_tuple(out.address, block->height, counter), out);
 			balance_cache.get(out.address, out.contract) += out.amount;
-			supply_delta[out.contract] += out.amount;
+			supply_delta[out.contract].first += out.amount;
 			counter++;
 		}
 		for(const auto& in : block_inputs)
@@ -1073,7 +1073,7 @@ void Node::apply(	std::shared_ptr<const Block> block,
 				memo_log.insert(std::make_tuple(key, block->height, counter), in.address);
 			}
 			txio_log.insert(std::make_tuple(in.address, block->height, counter), in);
-			clamped_sub_assign(supply_delta[in.contract], in.amount);
+			supply_delta[in.contract].second += in.amount;
 			counter++;
 		}
 		for(const auto& tx : block->get_transactions()) {
@@ -1104,10 +1104,12 @@ void Node::apply(	std::shared_ptr<const Block> block,
 		for(const auto& entry : supply_delta) {
 			const auto& currency = entry.first;
 			const auto& delta = entry.second;
-			if(delta) {
-				uint128 prev = 0;
-				total_supply_map.find(currency, prev);
-				total_supply_map.insert(currency, prev + delta);
+			if(delta.first != delta.second) {
+				uint128 supply = 0;
+				total_supply_map.find(currency, supply);
+				supply += delta.first;
+				clamped_sub_assign(supply, delta.second);
+				total_supply_map.insert(currency, supply);
 			}
 		}
 
-- 
2.43.0


From 1bb2217f24214dc8b2e5e9ac02176bbb29bfe1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 16/17] fix: Node.get_history() returned entries outside of the
 height range when since > until

---
 src/Node_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Node_api.cpp b/src/Node_api.cpp
index 40f2e55..dbeb4ee 100644
--- a/src/Node_api.cpp
+++ b/src/Node_api.cpp
@@ -402,7 +402,7 @@ std::vector<tx_entry_t> Node::get_history(const std::vector<addr_t>& addresses,
 	if(const auto& memo = filter.memo) {
 		return get_history_memo(addresses, *memo, filter);
 	}
-	if(filter.limit == 0) {
+	if(filter.limit == 0 || filter.since > filter.until) {
 		return {};
 	}
 	std::map<addr_t, uint32_t> count_map;
-- 
2.43.0


From 78b9498e2d8b5ac718f6ab8f62477afe0a1c02c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 17/17] fix: check the reward addresses of VDF points against
 the block header

---
 src/Node.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Node.cpp b/src/Node.cpp
index 218fde3..95b18cf 100644
--- a/src/Node.cpp
+++ b/src/Node.cpp
@@ -1643,7 +1643,8 @@ Node::find_vdf_points(std::shared_ptr<const BlockHeader> block) const
 			const auto& point = iter->second;
 			if(point->output == output
 				&& point->prev == infuse
-				&& point->num_iters == num_iters)
+				&& point->num_iters == num_iters
+				&& point->reward_addr == block->vdf_reward_addr[offset])
 			{
 				output = point->input;
 				vdf_iters += num_iters;
-- 
2.43.0

