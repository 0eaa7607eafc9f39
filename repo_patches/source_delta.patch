From c7eb205a1fde0627cf831d88bda4d9a110b52a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 01/34] fix: bound bulk guest memory accesses over their whole
 length

---
 lib/libloong/memory.cpp        |  6 +++---
 lib/libloong/memory.hpp        | 14 ++++++++++++--
 lib/libloong/memory_inline.hpp |  6 +++---
 lib/libloong/memory_rw.cpp     | 12 ++++++------
 4 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index dd289d8..3085a4d 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -262,9 +262,9 @@ void Memory::process_rela_section(size_t offset, size_t size, const MachineOptio
 
 size_t Memory::strlen(address_t addr, size_t maxlen) const
 {
-	const address_t end_addr = std::min(addr + maxlen, m_arena_size);
-	if (end_addr <= addr) return 0;
-	const address_t size = end_addr - addr;
+	if (addr >= m_arena_size) return 0;
+	const size_t size = std::min<size_t>(maxlen, m_arena_size - addr);
+	if (size == 0) return 0;
 	const char* ptr = memarray<char>(addr, size);
 	return ::strnlen(ptr, size);
 }
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 8216215..79185c1 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -145,12 +145,22 @@ namespace loongarch
 		void use_custom_arena(void* ptr, size_t size);
 		void free_arena();
 		static void free_arena_internal(uint8_t* arena, size_t size);
-		inline bool is_readable(address_t addr, size_t size = sizeof(address_t)) const noexcept {
+		// Scalar accesses only check the start address: The arena is over-allocated
+		inline bool is_readable(address_t addr) const noexcept {
 			return addr - m_rodata_start < m_arena_end_sub_rodata;
 		}
-		inline bool is_writable(address_t addr, size_t size = sizeof(address_t)) const noexcept {
+		inline bool is_writable(address_t addr) const noexcept {
 			return addr - m_data_start < m_arena_end_sub_data;
 		}
+		// Bulk accesses must be inside the arena for their whole length
+		inline bool is_readable(address_t addr, size_t count, size_t elem_size) const noexcept {
+			const address_t offset = addr - m_rodata_start;
+			return offset < m_arena_end_sub_rodata && count <= (m_arena_end_sub_rodata - offset) / elem_size;
+		}
+		inline bool is_writable(address_t addr, size_t count, size_t elem_size) const noexcept {
+			const address_t offset = addr - m_data_start;
+			return offset < m_arena_end_sub_data && count <= (m_arena_end_sub_data - offset) / elem_size;
+		}
 		[[noreturn]] LA_COLD_PATH() static void protection_fault(address_t addr, const char* message);
 	};
 
diff --git a/lib/libloong/memory_inline.hpp b/lib/libloong/memory_inline.hpp
index b147ff9..2388f89 100644
--- a/lib/libloong/memory_inline.hpp
+++ b/lib/libloong/memory_inline.hpp
@@ -33,7 +33,7 @@ inline void Memory::write(address_t addr, T value)
 			addr &= LA_MASKED_MEMORY_MASK;
 		}
 	} else {
-		if (LA_UNLIKELY(!is_writable(addr, sizeof(T)))) {
+		if (LA_UNLIKELY(!is_writable(addr))) {
 			protection_fault(addr, "Write to read-only memory");
 		}
 	}
@@ -44,7 +44,7 @@ inline void Memory::write(address_t addr, T value)
 template <typename T>
 inline const T* Memory::memarray(address_t addr, size_t count) const
 {
-	if (LA_UNLIKELY(!is_readable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(!is_readable(addr, count, sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr);
 	}
 
@@ -54,7 +54,7 @@ inline const T* Memory::memarray(address_t addr, size_t count) const
 template <typename T>
 inline T* Memory::writable_memarray(address_t addr, size_t count)
 {
-	if (LA_UNLIKELY(!is_writable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(!is_writable(addr, count, sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Write to read-only memory", addr);
 	}
 
diff --git a/lib/libloong/memory_rw.cpp b/lib/libloong/memory_rw.cpp
index aff9036..5825e82 100644
--- a/lib/libloong/memory_rw.cpp
+++ b/lib/libloong/memory_rw.cpp
@@ -15,7 +15,7 @@ namespace loongarch
 			if (LA_UNLIKELY(dest + len >= LA_MASKED_MEMORY_SIZE)) {
 				throw MachineException(PROTECTION_FAULT, "Write to out-of-bounds memory", dest);
 			}
-		} else if (LA_UNLIKELY(!is_writable(dest, len))) {
+		} else if (LA_UNLIKELY(!is_writable(dest, len, 1))) {
 			throw MachineException(PROTECTION_FAULT, "Write to read-only memory", dest);
 		}
 
@@ -33,7 +33,7 @@ namespace loongarch
 			if (LA_UNLIKELY(src + len >= LA_MASKED_MEMORY_SIZE)) {
 				throw MachineException(PROTECTION_FAULT, "Read from out-of-bounds memory", src);
 			}
-		} else if (LA_UNLIKELY(src < m_rodata_start || src + len >= m_arena_size)) {
+		} else if (LA_UNLIKELY(!is_readable(src, len, 1))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", src);
 		}
 
@@ -42,7 +42,7 @@ namespace loongarch
 
 	void Memory::memset(address_t dest, uint8_t value, size_t len)
 	{
-		if (LA_UNLIKELY(!is_writable(dest, len))) {
+		if (LA_UNLIKELY(!is_writable(dest, len, 1))) {
 			throw MachineException(PROTECTION_FAULT, "Write to read-only memory", dest);
 		}
 
@@ -51,10 +51,10 @@ namespace loongarch
 
 	int Memory::memcmp(address_t addr1, address_t addr2, size_t len) const
 	{
-		if (LA_UNLIKELY(addr1 < m_rodata_start || addr1 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable(addr1, len, 1))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr1);
 		}
-		if (LA_UNLIKELY(addr2 < m_rodata_start || addr2 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable(addr2, len, 1))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr2);
 		}
 
@@ -68,7 +68,7 @@ namespace loongarch
 
 	void Memory::copy_into_arena_unsafe(address_t dest, const void* src, size_t len)
 	{
-		if (LA_UNLIKELY(dest + len >= m_arena_size)) {
+		if (LA_UNLIKELY(dest > m_arena_size || len > m_arena_size - dest)) {
 			throw MachineException(PROTECTION_FAULT, "Write to out-of-bounds memory", dest);
 		}
 		std::memcpy(&m_arena[dest], src, len);
-- 
2.43.0


From 7bd5dee905692ec7c49014852555d5486f39efcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 02/34] fix: decode every instruction word as the ISA assigns
 it

Several prefixes were matched too widely (or at another instruction's
encoding), so words of other instructions executed as something else:
ldgt/fldgt/ammax_db as amxor, vclo/vclz/vneg as vpcnt, vpickev.d as
vilvh.d, most of the 0x778-0x77e block as xvldi, crc.w.b.w as rotri.d...
Match the architected bits, including must-be-zero fields.
---
 lib/libloong/la64.cpp | 254 +++++++++++++++++++-----------------------
 1 file changed, 112 insertions(+), 142 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 291f6fa..68148d6 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -446,8 +446,8 @@ namespace loongarch
 		uint32_t op17 = instr.whole & 0xFFFF8000;
 
 		// System instructions (Ud15)
-		if ((instr.whole & 0xFFFFFC00) == Opcode::BREAK) return DECODED_INSTR(BREAK);
-		if ((instr.whole & 0xFFFFFC00) == Opcode::SYSCALL) return DECODED_INSTR(SYSCALL);
+		if (op17 == Opcode::BREAK) return DECODED_INSTR(BREAK);
+		if (op17 == Opcode::SYSCALL) return DECODED_INSTR(SYSCALL);
 		if ((instr.whole & 0xFFFFFC00) == Opcode::RDTIME_D) return DECODED_INSTR(RDTIME_D);
 		if ((instr.whole & 0xFFFFFC00) == Opcode::CPUCFG) return DECODED_INSTR(CPUCFG);
 
@@ -528,17 +528,17 @@ namespace loongarch
 			if (op17 == Opcode::DIV_DU) return DECODED_INSTR(DIV_DU);
 			if (op17 == Opcode::MOD_DU) return DECODED_INSTR(MOD_DU);
 
-			// Shift immediate instructions (use bits[31:16])
+			// Shift immediate instructions (bits[31:15] for words, bits[31:16] for doublewords)
 			{
 				uint32_t op16 = (instr.whole >> 16) & 0xFFFF;
-				if (op16 == 0x0040) return DECODED_INSTR(SLLI_W);
+				if (op17 == 0x00408000) return DECODED_INSTR(SLLI_W);
 				if (op16 == 0x0041) return DECODED_INSTR(SLLI_D);
-				if (op16 == 0x0044) return DECODED_INSTR(SRLI_W);
+				if (op17 == 0x00448000) return DECODED_INSTR(SRLI_W);
 				if (op16 == 0x0045) return DECODED_INSTR(SRLI_D);
-				if (op16 == 0x0048) return DECODED_INSTR(SRAI_W);
+				if (op17 == 0x00488000) return DECODED_INSTR(SRAI_W);
 				if (op16 == 0x0049) return DECODED_INSTR(SRAI_D);
-				// ROTRI.D uses bits[31:16] for opcode (16-bit opcode = 0x0024)
-				if (op16 == 0x0024) return DECODED_INSTR(ROTRI_D);
+				// ROTRI.D uses bits[31:16] for opcode (16-bit opcode = 0x004D)
+				if (op16 == 0x004D) return DECODED_INSTR(ROTRI_D);
 			}
 
 			// ROTRI.W: bits[31:15] = 0x00099 (format DJUk5)
@@ -549,8 +549,8 @@ namespace loongarch
 			}
 
 			// ALSL.W and ALSL.D use bits [31:18] with sa2 in bits [16:15]
-			if ((instr.whole & 0xFFFC0000) == Opcode::ALSL_W) return DECODED_INSTR(ALSL_W);
-			if ((instr.whole & 0xFFFC0000) == Opcode::ALSL_D) return DECODED_INSTR(ALSL_D);
+			if ((instr.whole & 0xFFFE0000) == Opcode::ALSL_W) return DECODED_INSTR(ALSL_W);
+			if ((instr.whole & 0xFFFE0000) == Opcode::ALSL_D) return DECODED_INSTR(ALSL_D);
 
 			// Immediate instructions (op22 match)
 			if (op22 == (Opcode::ADDI_W & 0xFFC00000)) return DECODED_INSTR(ADDI_W);
@@ -600,15 +600,15 @@ namespace loongarch
 				// MOVGR2FR.D: bits[31:10] = 0x452A
 				if (op22_val == 0x452A) return DECODED_INSTR(MOVGR2FR_D);
 				// MOVFCSR2GR: bits[31:10] = 0x4532
-				if (op22_val == 0x4532) return DECODED_INSTR(MOVFCSR2GR);
+				if (op22_val == 0x4532 && (instr.whole & 0x380) == 0) return DECODED_INSTR(MOVFCSR2GR);
 				// MOVFR2CF: bits[31:10] = 0x4534
-				if (op22_val == 0x4534) return DECODED_INSTR(MOVFR2CF);
+				if (op22_val == 0x4534 && (instr.whole & 0x18) == 0) return DECODED_INSTR(MOVFR2CF);
 				// MOVCF2FR: bits[31:10] = 0x4535
-				if (op22_val == 0x4535) return DECODED_INSTR(MOVCF2FR);
+				if (op22_val == 0x4535 && (instr.whole & 0x300) == 0) return DECODED_INSTR(MOVCF2FR);
 				// MOVGR2CF: bits[31:10] = 0x4536
-				if (op22_val == 0x4536) return DECODED_INSTR(MOVGR2CF);
+				if (op22_val == 0x4536 && (instr.whole & 0x18) == 0) return DECODED_INSTR(MOVGR2CF);
 				// MOVCF2GR: bits[31:10] = 0x4537
-				if (op22_val == 0x4537) return DECODED_INSTR(MOVCF2GR);
+				if (op22_val == 0x4537 && (instr.whole & 0x300) == 0) return DECODED_INSTR(MOVCF2GR);
 				// FABS.D: bits[31:10] = 0x4502
 				if (op22_val == 0x4502) return DECODED_INSTR(FABS_D);
 				// FABS.S: bits[31:10] = 0x4501
@@ -730,29 +730,14 @@ namespace loongarch
 		// FSEL: FP conditional select - bits[31:18] = 0x0340
 		if (((instr.whole >> 18) & 0x3FFF) == 0x0340) return DECODED_INSTR(FSEL);
 
-		// FCMP instructions: bits[31:22] = 0x030, bit 21 determines S vs D, bits[19:15] = condition code
-		{
-			uint32_t op10 = (instr.whole >> 22) & 0x3FF;
-			if (op10 == 0x030) {
-				// Bit 21: 0 = single precision (.s), 1 = double precision (.d)
-				bool is_double = (instr.whole >> 21) & 1;
-				return is_double ? DECODED_INSTR(FCMP_COND_D) : DECODED_INSTR(FCMP_COND_S);
-			}
-		}
-		// VFCMP instructions: bits[31:21] = 0x063, bits[20:15] = condition code
-		{
-			uint32_t op11 = (instr.whole >> 21) & 0x7FF;
-			if (op11 == 0x063) {
-				return DECODED_INSTR(VFCMP_COND_D);
-			}
-		}
-		// XVFCMP instructions: bits[31:21] = 0x065, bits[20:15] = condition code (LASX)
-		{
-			uint32_t op11 = (instr.whole >> 21) & 0x7FF;
-			if (op11 == 0x065) {
-				return DECODED_INSTR(XVFCMP_COND_D);
-			}
-		}
+		// FCMP instructions: bits[31:20] = 0x0C1 (.s) / 0x0C2 (.d), bits[19:15] = condition code,
+		// bits[4:3] are zero and bits[2:0] name the condition flag
+		if ((instr.whole & 0xFFF00018) == 0x0C100000) return DECODED_INSTR(FCMP_COND_S);
+		if ((instr.whole & 0xFFF00018) == 0x0C200000) return DECODED_INSTR(FCMP_COND_D);
+		// VFCMP.D instructions: bits[31:20] = 0x0C6, bits[19:15] = condition code
+		if ((instr.whole >> 20) == 0x0C6) return DECODED_INSTR(VFCMP_COND_D);
+		// XVFCMP.D instructions: bits[31:20] = 0x0CA, bits[19:15] = condition code (LASX)
+		if ((instr.whole >> 20) == 0x0CA) return DECODED_INSTR(XVFCMP_COND_D);
 			break;
 
 		case 0x04: // ADDU16I.D (0x10000000)
@@ -868,26 +853,26 @@ namespace loongarch
 			if ((instr.whole & 0xFFFF8000) == 0x38280000) return DECODED_INSTR(LDX_WU);
 
 			// STX instructions: bits [31:18] identify the operation
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_B) return DECODED_INSTR(STX_B);
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_H) return DECODED_INSTR(STX_H);
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_W) return DECODED_INSTR(STX_W);
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_D) return DECODED_INSTR(STX_D);
+			if ((instr.whole & 0xFFFF8000) == Opcode::STX_B) return DECODED_INSTR(STX_B);
+			if ((instr.whole & 0xFFFF8000) == Opcode::STX_H) return DECODED_INSTR(STX_H);
+			if ((instr.whole & 0xFFFF8000) == Opcode::STX_W) return DECODED_INSTR(STX_W);
+			if ((instr.whole & 0xFFFF8000) == Opcode::STX_D) return DECODED_INSTR(STX_D);
 			// FLDX_D: Floating-point indexed load (double)
-			if ((instr.whole & 0xFFFC0000) == 0x38340000) return DECODED_INSTR(FLDX_D);
+			if ((instr.whole & 0xFFFF8000) == 0x38340000) return DECODED_INSTR(FLDX_D);
 			// FLDX_S: Floating-point indexed load (single) - 0x38300000
-			if ((instr.whole & 0xFFFC0000) == 0x38300000) return DECODED_INSTR(FLDX_S);
+			if ((instr.whole & 0xFFFF8000) == 0x38300000) return DECODED_INSTR(FLDX_S);
 			// FSTX_D: Floating-point indexed store
-			if ((instr.whole & 0xFFFC0000) == Opcode::FSTX_D) return DECODED_INSTR(FSTX_D);
+			if ((instr.whole & 0xFFFF8000) == Opcode::FSTX_D) return DECODED_INSTR(FSTX_D);
 			// FSTX_S: Floating-point indexed store (single) - 0x38380000
-			if ((instr.whole & 0xFFFC0000) == 0x38380000) return DECODED_INSTR(FSTX_S);
+			if ((instr.whole & 0xFFFF8000) == 0x38380000) return DECODED_INSTR(FSTX_S);
 			// VLDX: Vector indexed load (LSX 128-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x38400000) return DECODED_INSTR(VLDX);
+			if ((instr.whole & 0xFFFF8000) == 0x38400000) return DECODED_INSTR(VLDX);
 			// VSTX: Vector indexed store (LSX 128-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x38440000) return DECODED_INSTR(VSTX);
+			if ((instr.whole & 0xFFFF8000) == 0x38440000) return DECODED_INSTR(VSTX);
 			// XVLDX: Vector indexed load (LASX 256-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x38480000) return DECODED_INSTR(XVLDX);
+			if ((instr.whole & 0xFFFF8000) == 0x38480000) return DECODED_INSTR(XVLDX);
 			// XVSTX: Vector indexed store (LASX 256-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x384C0000) return DECODED_INSTR(XVSTX);
+			if ((instr.whole & 0xFFFF8000) == 0x384C0000) return DECODED_INSTR(XVSTX);
 
 			// Atomic instructions: bits [31:20] = 0x386
 			// Empirical encoding: bits[19:16] encode both operation and ordering
@@ -916,14 +901,11 @@ namespace loongarch
 						return is_64bit ? DECODED_INSTR(AMAND_D) : DECODED_INSTR(AMAND_W);
 					case 3: case 12: // AMOR (guessed)
 						return is_64bit ? DECODED_INSTR(AMOR_D) : DECODED_INSTR(AMOR_W);
-					// TODO: Verify AMXOR, AMMAX, AMMIN encodings when encountered
+					case 4: case 13: // AMXOR
+						return is_64bit ? DECODED_INSTR(AMXOR_D) : DECODED_INSTR(AMXOR_W);
+					// TODO: AMMAX, AMMIN
 				}
 			}
-			// AMXOR: bits [31:20] = 0x387
-			if ((instr.whole & 0xFFF00000) == 0x38700000) {
-				bool is_64bit = ((instr.whole >> 15) & 1);
-				return is_64bit ? DECODED_INSTR(AMXOR_D) : DECODED_INSTR(AMXOR_W);
-			}
 			break;
 		case 0x0B: // VLD / VST / XVLD / XVST instructions (op6 = 0x0B for 0x2Cxxxxxx)
 			// Example VLD: 2c0041a2
@@ -957,20 +939,19 @@ namespace loongarch
 				// VPCNT: Vector Population Count - bits[31:15] = 0xE538, bits[14:10] select size
 				uint32_t bits15 = instr.whole >> 15;
 				if (bits15 == 0xE658) {
-					// vslli.b and vslli.h both have bits[31:15] = 0xe658, differentiate by bit 14
-					uint32_t bit14 = (instr.whole >> 14) & 1;
-					if (bit14 == 0) return DECODED_INSTR(VSLLI_B);
-					else return DECODED_INSTR(VSLLI_H);
+					// vslli.b (bits[14:13] = 01) and vslli.h (bit 14 = 1) share bits[31:15] = 0xe658
+					if (((instr.whole >> 13) & 3) == 1) return DECODED_INSTR(VSLLI_B);
+					if ((instr.whole >> 14) & 1) return DECODED_INSTR(VSLLI_H);
 				}
 				if (bits15 == 0xE659) return DECODED_INSTR(VSLLI_W);
-				if (bits15 == 0xE65A) return DECODED_INSTR(VSLLI_D);
-				if (bits15 == 0xE660) return DECODED_INSTR(VBITREVI_D);
+				if (top16 == 0x732D) return DECODED_INSTR(VSLLI_D);
+				if (top16 == 0x7319) return DECODED_INSTR(VBITREVI_D);
 				if (bits15 == 0xE538) {
-					uint32_t size = (instr.whole >> 10) & 0x3;
-					if (size == 0) return DECODED_INSTR(VPCNT_B);
-					if (size == 1) return DECODED_INSTR(VPCNT_H);
-					if (size == 2) return DECODED_INSTR(VPCNT_W);
-					if (size == 3) return DECODED_INSTR(VPCNT_D);
+					uint32_t subop = (instr.whole >> 10) & 0x1F;
+					if (subop == 0x8) return DECODED_INSTR(VPCNT_B);
+					if (subop == 0x9) return DECODED_INSTR(VPCNT_H);
+					if (subop == 0xA) return DECODED_INSTR(VPCNT_W);
+					if (subop == 0xB) return DECODED_INSTR(VPCNT_D);
 				}
 				// VMAX/VMIN instructions - bits[31:15] identify variants
 				// Signed: 0xE0E0-E0E3 (b/h/w/d), Unsigned: 0xE0E8-E0EB (bu/hu/wu/du)
@@ -1018,8 +999,8 @@ namespace loongarch
 					return DECODED_INSTR(VILVL_D);
 				}
 				// VILVH.D: Vector Interleave High Double-word
-				// bits[31:15] = 0xE23F
-				if ((instr.whole >> 15) == 0xE23F) {
+				// bits[31:15] = 0xE23B
+				if ((instr.whole >> 15) == 0xE23B) {
 					return DECODED_INSTR(VILVH_D);
 				}
 				// VPICKEV.W: Vector Pick Even Word
@@ -1028,33 +1009,28 @@ namespace loongarch
 					return DECODED_INSTR(VPICKEV_W);
 				}
 				// VPICKVE2GR instructions: signed (0x72EF) and unsigned (0x72F3)
-				// bits[15:12] determine size: 0x8=B, 0xC=H, 0xE=W, 0xF=D
-				if (top16 == 0x72EF) {
-					uint32_t subop = (instr.whole >> 12) & 0xF;
-					if (subop == 0x8) return DECODED_INSTR(VPICKVE2GR_B);
-					if (subop == 0xC) return DECODED_INSTR(VPICKVE2GR_H);
-					if (subop == 0xE) return DECODED_INSTR(VPICKVE2GR_W);
-					if (subop == 0xF) return DECODED_INSTR(VPICKVE2GR_D);
-				}
-				if (top16 == 0x72F3) {
-					uint32_t subop = (instr.whole >> 12) & 0xF;
-					if (subop == 0x8) return DECODED_INSTR(VPICKVE2GR_BU);
-					if (subop == 0xC) return DECODED_INSTR(VPICKVE2GR_HU);
-					if (subop == 0xE) return DECODED_INSTR(VPICKVE2GR_WU);
-					if (subop == 0xF) return DECODED_INSTR(VPICKVE2GR_DU);
-				}
-				// VREPLVEI.D: 0x72F7xxxx (Vector Replicate Vector Element Immediate - double)
-				if (top16 == 0x72F7) {
+				// bits[15:14] = 10: B, bits[15:13] = 110: H, bits[15:12] = 1110: W, bits[15:11] = 11110: D
+				if (top16 == 0x72EF || top16 == 0x72F3) {
+					const bool is_unsigned = (top16 == 0x72F3);
+					if (((instr.whole >> 14) & 0x3) == 0x2)
+						return is_unsigned ? DECODED_INSTR(VPICKVE2GR_BU) : DECODED_INSTR(VPICKVE2GR_B);
+					if (((instr.whole >> 13) & 0x7) == 0x6)
+						return is_unsigned ? DECODED_INSTR(VPICKVE2GR_HU) : DECODED_INSTR(VPICKVE2GR_H);
+					if (((instr.whole >> 12) & 0xF) == 0xE)
+						return is_unsigned ? DECODED_INSTR(VPICKVE2GR_WU) : DECODED_INSTR(VPICKVE2GR_W);
+					if (((instr.whole >> 11) & 0x1F) == 0x1E)
+						return is_unsigned ? DECODED_INSTR(VPICKVE2GR_DU) : DECODED_INSTR(VPICKVE2GR_D);
+				}
+				// VREPLVEI.D: bits[31:11] = 0xE5EFE (Vector Replicate Vector Element Immediate - double)
+				if ((instr.whole >> 11) == (0x72F7F000 >> 11)) {
 					return DECODED_INSTR(VREPLVEI_D);
 				}
 				if (top16 == 0x729C) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x28) return DECODED_INSTR(VSETANYEQZ_B);
 					if (subop == 0x18) return DECODED_INSTR(VMSKNZ_B);
-				}
-				if (top16 == 0x729D) {
-					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x18) return DECODED_INSTR(VSETALLNEZ_B);
+					// the condition flag is in bits[2:0], bits[4:3] are zero
+					if (subop == 0x28 && (instr.whole & 0x18) == 0) return DECODED_INSTR(VSETANYEQZ_B);
+					if (subop == 0x2C && (instr.whole & 0x18) == 0) return DECODED_INSTR(VSETALLNEZ_B);
 				}
 				// VREPLGR2VR: 0x729F0xxx
 				// .B (subop=0x00), .H (subop=0x01), .W (subop=0x02), .D (subop=0x03)
@@ -1200,12 +1176,10 @@ namespace loongarch
 				}
 				// VFTINTRZ.W.S / VFTINTRZ.L.D: bits[31:15] = 0xE53C
 				if ((instr.whole >> 15) == 0xE53C) {
-					// Differentiate by bit 10
-					if ((instr.whole >> 10) & 1) {
-						return DECODED_INSTR(VFTINTRZ_L_D);
-					} else {
-						return DECODED_INSTR(VFTINTRZ_W_S);
-					}
+					// bits[14:10] select the conversion
+					uint32_t subop = (instr.whole >> 10) & 0x1F;
+					if (subop == 0x12) return DECODED_INSTR(VFTINTRZ_W_S);
+					if (subop == 0x13) return DECODED_INSTR(VFTINTRZ_L_D);
 				}
 				// VXOR.V: bits[31:15] = 0xE24E
 				if ((instr.whole >> 15) == 0xE24E) {
@@ -1236,25 +1210,23 @@ namespace loongarch
 
 				// XVMSKNZ.B: 0x769C6xxx (bits[31:16] = 0x769C, bits[15:10] = 0x18)
 				// XVSETANYEQZ.B: 0x769CAxx (bits[31:16] = 0x769C, bits[15:10] = 0x28)
-				// XVSETEQZ.V: 0x769CBxxx (bits[31:16] = 0x769C, bits[15:10] = 0x2C)
+				// XVSETEQZ.V: 0x769C98xx (bits[31:16] = 0x769C, bits[15:10] = 0x26)
+				// (for the latter two, the condition flag is in bits[2:0], bits[4:3] are zero)
 				if (top16 == 0x769C) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x18) return DECODED_INSTR(XVMSKNZ_B);
-					if (subop == 0x28) return DECODED_INSTR(XVSETANYEQZ_B);
-					if (subop == 0x2C) return DECODED_INSTR(XVSETEQZ_V);
+					if (subop == 0x28 && (instr.whole & 0x18) == 0) return DECODED_INSTR(XVSETANYEQZ_B);
+					if (subop == 0x26 && (instr.whole & 0x18) == 0) return DECODED_INSTR(XVSETEQZ_V);
 				}
 				// XVREPLGR2VR.B: 0x769F0xxx (bits[31:16] = 0x769F, bits[15:10] = 0x00)
 				if (top16 == 0x769F) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x00) return DECODED_INSTR(XVREPLGR2VR_B);
 				}
-				// XVPICKVE.W: 0x7703Dxxx (bits[31:16] = 0x7703, bits[15:10] = 0x34)
-				if (top16 == 0x7703) {
-					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x34) return DECODED_INSTR(XVPICKVE_W);
-				}
-				// XVSEQ.B: bits[31:15] = 0xEE00
-				if ((instr.whole >> 15) == 0xEE00) {
+				// XVPICKVE.W: bits[31:13] = 0x3B81E (0x7703Cxxx / 0x7703Dxxx)
+				if ((instr.whole >> 13) == (0x7703C000 >> 13)) return DECODED_INSTR(XVPICKVE_W);
+				// XVSEQ.B: bits[31:15] = 0xE800
+				if ((instr.whole >> 15) == 0xE800) {
 					return DECODED_INSTR(XVSEQ_B);
 				}
 				// XVXOR.V: bits[31:15] = 0xEA4E
@@ -1285,13 +1257,13 @@ namespace loongarch
 				if ((instr.whole >> 15) == 0xE8EC) {
 					return DECODED_INSTR(XVMIN_BU);
 				}
-				// XVMAX.BU: bits[31:15] = 0xE8ED
-				if ((instr.whole >> 15) == 0xE8ED) {
+				// XVMAX.BU: bits[31:15] = 0xE8E8
+				if ((instr.whole >> 15) == 0xE8E8) {
 					return DECODED_INSTR(XVMAX_BU);
 				}
-				// XVPICKVE2GR.W: bits[31:18] = 0x1DBB (0x76EFxxxx)
+				// XVPICKVE2GR.W: bits[31:13] = 0x3B77E (0x76EFCxxx / 0x76EFDxxx)
 				// Pick word element from LASX vector to general register
-				if ((instr.whole >> 18) == 0x1DBB) {
+				if ((instr.whole >> 13) == (0x76EFC000 >> 13)) {
 					return DECODED_INSTR(XVPICKVE2GR_W);
 				}
 				// XVPERMI.Q: LASX permute quadword - bits[31:18] = 0x1DFB
@@ -1311,46 +1283,44 @@ namespace loongarch
 				// XVFSUB.D: LASX vector floating-point subtract (double) - bits[31:15] = 0xEA66
 				// Opcode: 0x75330000 >> 15 = 0xEA66
 				if ((instr.whole >> 15) == 0xEA66) return DECODED_INSTR(XVFSUB_D);
-				// XVBITREVI.D: LASX vector bit reverse immediate (double) - bits[31:15] = 0xEE32
-				// Opcode: 0x77190000 >> 15 = 0xEE32
-				if ((instr.whole >> 15) == 0xEE32) return DECODED_INSTR(XVBITREVI_D);
+				// XVBITREVI.D: LASX vector bit reverse immediate (double) - bits[31:16] = 0x7719
+				if ((instr.whole >> 16) == 0x7719) return DECODED_INSTR(XVBITREVI_D);
 				// XVREPLVE.D: LASX vector replicate element (double) - bits[31:15] = 0xEA47
 				// Opcode: 0x75238000 >> 15 = 0xEA47
 				if ((instr.whole >> 15) == 0xEA47) return DECODED_INSTR(XVREPLVE_D);
-				// XVORI.B: LASX vector OR immediate byte - bits[31:15] = 0xEFA8
-				// Opcode: 0x77d40000 >> 15 = 0xEFA8
-				if ((instr.whole >> 15) == 0xEFA8) return DECODED_INSTR(XVORI_B);
-				// XVXORI.B: LASX vector XOR immediate byte - bits[31:15] = 0xEFB0
-				// Opcode: 0x77d80000 >> 15 = 0xEFB0
-				if ((instr.whole >> 15) == 0xEFB0) return DECODED_INSTR(XVXORI_B);
+				// XVORI.B: LASX vector OR immediate byte - bits[31:18] = 0x1DF5
+				// Opcode: 0x77d40000 >> 18 = 0x1DF5 (8-bit immediate)
+				if ((instr.whole >> 18) == 0x1DF5) return DECODED_INSTR(XVORI_B);
+				// XVXORI.B: LASX vector XOR immediate byte - bits[31:18] = 0x1DF6
+				// Opcode: 0x77d80000 >> 18 = 0x1DF6 (8-bit immediate)
+				if ((instr.whole >> 18) == 0x1DF6) return DECODED_INSTR(XVXORI_B);
 				// XVILVL.D: LASX vector interleave low double-word - bits[31:15] = 0xEA37
 				// Opcode: 0x751b8000 >> 15 = 0xEA37
 				if ((instr.whole >> 15) == 0xEA37) return DECODED_INSTR(XVILVL_D);
-				// XVILVH.D: LASX vector interleave high double-word - bits[31:15] = 0xEA3F
-				// Opcode: 0x751f8000 >> 15 = 0xEA3F
-				if ((instr.whole >> 15) == 0xEA3F) return DECODED_INSTR(XVILVH_D);
-				// XVPERMI.D: LASX vector permute double-word - bits[31:18] = 0x1dc1
-				// Opcode: 0x7707e000 >> 18 = 0x1dc1
-				if ((instr.whole >> 18) == 0x1dc1) return DECODED_INSTR(XVPERMI_D);
-				// XVPACKEV.D: LASX vector pack even double-word - bits[31:15] = 0xea66
-				// Opcode: 0x75330000 >> 15 = 0xea66
-				if ((instr.whole >> 15) == 0xea66) return DECODED_INSTR(XVPACKEV_D);
-				// XVPACKOD.D: LASX vector pack odd double-word - bits[31:15] = 0xee33
-				// Opcode: 0x77198000 >> 15 = 0xee33
-				if ((instr.whole >> 15) == 0xee33) return DECODED_INSTR(XVPACKOD_D);
-				// XVPICKEV.D: LASX vector pick even double-word - bits[31:15] = 0xee07
-				// Opcode: 0x7703c000 >> 15 = 0xee07
-				if ((instr.whole >> 15) == 0xee07) return DECODED_INSTR(XVPICKEV_D);
+				// XVILVH.D: LASX vector interleave high double-word - bits[31:15] = 0xEA3B
+				// Opcode: 0x751d8000 >> 15 = 0xEA3B
+				if ((instr.whole >> 15) == 0xEA3B) return DECODED_INSTR(XVILVH_D);
+				// XVPERMI.D: LASX vector permute double-word - bits[31:18] = 0x1dfa
+				// Opcode: 0x77e80000 >> 18 = 0x1dfa (8-bit immediate)
+				if ((instr.whole >> 18) == 0x1dfa) return DECODED_INSTR(XVPERMI_D);
+				// XVPACKEV.D: LASX vector pack even double-word - bits[31:15] = 0xea2f
+				// Opcode: 0x75178000 >> 15 = 0xea2f
+				if ((instr.whole >> 15) == 0xea2f) return DECODED_INSTR(XVPACKEV_D);
+				// XVPACKOD.D: LASX vector pack odd double-word - bits[31:15] = 0xea33
+				// Opcode: 0x75198000 >> 15 = 0xea33
+				if ((instr.whole >> 15) == 0xea33) return DECODED_INSTR(XVPACKOD_D);
+				// XVPICKEV.D: LASX vector pick even double-word - bits[31:15] = 0xea3f
+				// Opcode: 0x751f8000 >> 15 = 0xea3f
+				if ((instr.whole >> 15) == 0xea3f) return DECODED_INSTR(XVPICKEV_D);
 				// XVPICKEV.W: LASX vector pick even word - bits[31:15] = 0xea3e
 				// Opcode: 0x751f0000 >> 15 = 0xea3e
 				if ((instr.whole >> 15) == 0xea3e) return DECODED_INSTR(XVPICKEV_W);
-				// XVPICKOD.D: LASX vector pick odd double-word - bits[31:15] = 0xee0f
-				// Opcode: 0x77078000 >> 15 = 0xee0f
-				if ((instr.whole >> 15) == 0xee0f) return DECODED_INSTR(XVPICKOD_D);
-				// XVLDI: LASX load immediate - bits[31:23] = 0xEF
-				// Opcode: 0x77e00000 >> 23 = 0xEF (format: XdSj13 with 13-bit immediate)
-				// Note: Checked last as catch-all for 0x77exxxxx / 0x77fxxxxx after specific instructions
-				if ((instr.whole >> 23) == 0xEF) {
+				// XVPICKOD.D: LASX vector pick odd double-word - bits[31:15] = 0xea43
+				// Opcode: 0x75218000 >> 15 = 0xea43
+				if ((instr.whole >> 15) == 0xea43) return DECODED_INSTR(XVPICKOD_D);
+				// XVLDI: LASX load immediate - bits[31:18] = 0x1DF8
+				// Opcode: 0x77e00000 >> 18 = 0x1DF8 (format: XdSj13 with 13-bit immediate)
+				if ((instr.whole >> 18) == 0x1DF8) {
 					return DECODED_INSTR(XVLDI);
 				}
 			}
-- 
2.43.0


From de01132ff92980564bfc11f37927f0bc6e671823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 03/34] fix: keep the zero register zero and define signed
 division overflow

---
 lib/libloong/bytecode_impl.cpp | 2 ++
 lib/libloong/cpu.cpp           | 2 ++
 lib/libloong/la_instr_impl.hpp | 8 ++++----
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index bf048c0..2623592 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1029,6 +1029,7 @@ INSTRUCTION(LA64_BC_FUNCTION, execute_decoded_function)
 	const auto handler = DECODER().get_handler();
 	//printf("Slow-path pc=0x%lx for instr %08X\n", RECONSTRUCT_PC(), DECODER().instr);
 	handler(CPU(), la_instruction{DECODER().instr});
+	REG(REG_ZERO) = 0;
 	NEXT_INSTR();
 }
 INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
@@ -1036,6 +1037,7 @@ INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
 	// Call the cached handler for this instruction
 	const auto handler = DECODER().get_extended_handler();
 	handler(CPU(), la_instruction{DECODER().instr});
+	REG(REG_ZERO) = 0;
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/cpu.cpp b/lib/libloong/cpu.cpp
index 83f6398..c305f8c 100644
--- a/lib/libloong/cpu.cpp
+++ b/lib/libloong/cpu.cpp
@@ -70,6 +70,8 @@ namespace loongarch
 	{
 		const auto& handler = decode(instr);
 		handler.handler(*this, instr);
+		// The zero register is hardwired, whatever the handler wrote
+		this->reg(REG_ZERO) = 0;
 	}
 
 	bool CPU::is_executable(address_t addr) const noexcept
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index f170aff..5dd12fa 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -62,13 +62,13 @@ struct InstrImpl {
 	static void DIV_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a / b) : 0;
+		cpu.reg(instr.r3.rd) = (b == 0) ? 0 : (b == -1) ? static_cast<int64_t>(static_cast<int32_t>(0u - static_cast<uint32_t>(a))) : static_cast<int64_t>(a / b);
 	}
 
 	static void MOD_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a % b) : 0;
+		cpu.reg(instr.r3.rd) = (b == 0) ? 0 : (b == -1) ? 0 : static_cast<int64_t>(a % b);
 	}
 
 	static void DIV_WU(cpu_t& cpu, la_instruction instr) {
@@ -86,13 +86,13 @@ struct InstrImpl {
 	static void DIV_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a / b) : 0;
+		cpu.reg(instr.r3.rd) = (b == 0) ? 0 : (b == -1) ? static_cast<int64_t>(0ull - static_cast<uint64_t>(a)) : (a / b);
 	}
 
 	static void MOD_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a % b) : 0;
+		cpu.reg(instr.r3.rd) = (b == 0) ? 0 : (b == -1) ? 0 : (a % b);
 	}
 
 	static void DIV_DU(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 577a83377d2363439829124320190f41c7929568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 04/34] fix: byte pick order, full-width bit strings and
 pcaddu18i offsets

---
 lib/libloong/bytecode_impl.cpp | 14 +++++++-------
 lib/libloong/la_instr_impl.hpp | 18 +++++++++---------
 lib/libloong/tr_emit.cpp       | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 2623592..ffa2d1d 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -194,7 +194,7 @@ INSTRUCTION(LA64_BC_BSTRPICK_D, la64_bstrpick_d)
 	auto fi = *(FasterLA64_BitField *)&DECODER().instr;
 	const address_t src = REG(fi.rj);
 	const uint32_t width = fi.msbd - fi.lsbd + 1;
-	const address_t mask = (1ULL << width) - 1;
+	const address_t mask = ~0ULL >> ((64 - width) & 63);
 	REG(fi.rd) = (src >> fi.lsbd) & mask;
 	NEXT_INSTR();
 }
@@ -302,14 +302,14 @@ INSTRUCTION(LA64_BC_STX_D, la64_stx_d)
 	NEXT_INSTR();
 }
 
-// LA64_BC_BSTRPICK_W: Bit string pick word (rd = extract bits[msbw:lsbw] from rj, zero-extend)
+// LA64_BC_BSTRPICK_W: Bit string pick word (rd = extract bits[msbw:lsbw] from rj, sign-extended word)
 INSTRUCTION(LA64_BC_BSTRPICK_W, la64_bstrpick_w)
 {
 	auto fi = *(FasterLA64_BitFieldW *)&DECODER().instr;
 	const uint32_t src = (uint32_t)REG(fi.rj);
 	const uint32_t width = fi.msbw - fi.lsbw + 1;
-	const uint32_t mask = (1U << width) - 1;
-	REG(fi.rd) = (src >> fi.lsbw) & mask;
+	const uint32_t mask = ~0U >> ((32 - width) & 31);
+	REG(fi.rd) = (int64_t)(int32_t)((src >> fi.lsbw) & mask);
 	NEXT_INSTR();
 }
 
@@ -419,7 +419,7 @@ INSTRUCTION(LA64_BC_BSTRINS_D, la64_bstrins_d)
 	// Valid when msbd >= lsbd
 	if (fi.msbd >= fi.lsbd) {
 		uint32_t width = fi.msbd - fi.lsbd + 1;
-		uint64_t mask = ((1ULL << width) - 1) << fi.lsbd;
+		uint64_t mask = (~0ULL >> (64 - width)) << fi.lsbd;
 		uint64_t bits = (src << fi.lsbd) & mask;
 		REG(fi.rd) = (dst & ~mask) | bits;
 	}
@@ -752,9 +752,9 @@ INSTRUCTION(LA64_BC_BYTEPICK_D, la64_bytepick_d)
 	uint32_t shift = fi.sa3 * 8;
 	uint64_t result;
 	if (shift == 0) {
-		result = rj_val;
+		result = rk_val;
 	} else {
-		result = (rk_val << (64 - shift)) | (rj_val >> shift);
+		result = (rk_val << shift) | (rj_val >> (64 - shift));
 	}
 	REG(fi.rd) = result;
 	NEXT_INSTR();
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 5dd12fa..96cfe3f 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -164,7 +164,7 @@ struct InstrImpl {
 	static void BYTEPICK_D(cpu_t& cpu, la_instruction instr) {
 		// BYTEPICK.D rd, rj, rk, sa3
 		// Concatenates rk and rj as a 128-bit value [rk:rj]
-		// Then extracts 64 bits starting at byte offset sa3
+		// Then extracts the 64 bits that start sa3 bytes below the top half
 		uint32_t sa3 = (instr.whole >> 15) & 0x7;
 		uint64_t rj_val = cpu.reg(instr.r3.rj);
 		uint64_t rk_val = cpu.reg(instr.r3.rk);
@@ -172,12 +172,12 @@ struct InstrImpl {
 		// Shift amount in bits = sa3 * 8
 		uint32_t shift = sa3 * 8;
 
-		// Result is (rk << (64 - shift)) | (rj >> shift)
+		// Result is (rk << shift) | (rj >> (64 - shift))
 		uint64_t result;
 		if (shift == 0) {
-			result = rj_val;
+			result = rk_val;
 		} else {
-			result = (rk_val << (64 - shift)) | (rj_val >> shift);
+			result = (rk_val << shift) | (rj_val >> (64 - shift));
 		}
 		cpu.reg(instr.r3.rd) = result;
 	}
@@ -570,7 +570,7 @@ struct InstrImpl {
 
 	static void PCADDU18I(cpu_t& cpu, la_instruction instr) {
 		int32_t si20 = InstructionHelpers::sign_extend_20(instr.ri20.imm);
-		int64_t offset = (int64_t)(si20 << 18);
+		int64_t offset = (int64_t)si20 << 18;
 		cpu.reg(instr.ri20.rd) = cpu.pc() + offset;
 	}
 
@@ -592,7 +592,7 @@ struct InstrImpl {
 		// Valid when msbd >= lsbd
 		if (msbd >= lsbd) {
 			uint32_t width = msbd - lsbd + 1;
-			uint64_t mask = ((1ULL << width) - 1) << lsbd;
+			uint64_t mask = (~0ULL >> (64 - width)) << lsbd;
 			uint64_t bits = (src << lsbd) & mask;
 			cpu.reg(instr.ri16.rd) = (dst & ~mask) | bits;
 		}
@@ -606,7 +606,7 @@ struct InstrImpl {
 
 		// Extract the bit field
 		uint32_t width = msbd - lsbd + 1;
-		uint64_t mask = (1ULL << width) - 1;
+		uint64_t mask = ~0ULL >> ((64 - width) & 63);
 		uint64_t result = (src >> lsbd) & mask;
 		cpu.reg(instr.ri16.rd) = result;
 	}
@@ -622,7 +622,7 @@ struct InstrImpl {
 		// Valid when msbw >= lsbw
 		if (msbw >= lsbw) {
 			uint32_t width = msbw - lsbw + 1;
-			uint32_t mask = ((1U << width) - 1) << lsbw;
+			uint32_t mask = (~0U >> (32 - width)) << lsbw;
 			uint32_t bits = (src << lsbw) & mask;
 			uint32_t result = (dst & ~mask) | bits;
 			// Sign-extend to 64 bits
@@ -639,7 +639,7 @@ struct InstrImpl {
 
 		// Extract the bit field
 		uint32_t width = msbw - lsbw + 1;
-		uint32_t mask = (1U << width) - 1;
+		uint32_t mask = ~0U >> ((32 - width) & 31);
 		uint32_t result = (src >> lsbw) & mask;
 		cpu.reg(instr.ri16.rd) = (int32_t)result;
 	}
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 02af911..2232d84 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -767,7 +767,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 		case InstrId::PCADDU18I: {
 			if (instr.ri20.rd != 0) {
 				int32_t si20 = InstructionHelpers::sign_extend_20(instr.ri20.imm);
-				int64_t offset = (int64_t)(si20 << 18);
+				int64_t offset = (int64_t)si20 << 18;
 				emit.add_code("  " + emit.reg(instr.ri20.rd) + " = " +
 					hex_address(emit.pc() + offset) + "ULL;");
 			}
@@ -1361,12 +1361,12 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.r3.rd != 0) {
 				uint32_t sa3 = (instr.whole >> 15) & 0x7;
 				if (sa3 == 0) {
-					emit.add_code("  " + emit.reg(instr.r3.rd) + " = " + emit.reg(instr.r3.rj) + ";");
+					emit.add_code("  " + emit.reg(instr.r3.rd) + " = " + emit.reg(instr.r3.rk) + ";");
 				} else {
 					uint32_t shift = sa3 * 8;
 					emit.add_code("  " + emit.reg(instr.r3.rd) + " = (" +
-						emit.reg(instr.r3.rk) + " << " + std::to_string(64 - shift) + ") | (" +
-						emit.reg(instr.r3.rj) + " >> " + std::to_string(shift) + ");");
+						emit.reg(instr.r3.rk) + " << " + std::to_string(shift) + ") | (" +
+						emit.reg(instr.r3.rj) + " >> " + std::to_string(64 - shift) + ");");
 				}
 			}
 			break;
@@ -1378,7 +1378,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t lsbw = (instr.whole >> 10) & 0x1F;
 				if (msbw >= lsbw) {
 					uint32_t width = msbw - lsbw + 1;
-					uint32_t mask = ((1U << width) - 1) << lsbw;  // Precomputed at translation time
+					uint32_t mask = (~0U >> (32 - width)) << lsbw;  // Precomputed at translation time
 					uint32_t inv_mask = ~mask;  // Precomputed at translation time
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (int32_t)(((uint32_t)" +
 						emit.reg(instr.ri16.rd) + " & " + std::to_string(inv_mask) + "U) | (((uint32_t)" +
@@ -1393,7 +1393,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t lsbd = (instr.whole >> 10) & 0x3F;
 				if (msbd >= lsbd) {
 					uint32_t width = msbd - lsbd + 1;
-					uint64_t mask = ((1ULL << width) - 1) << lsbd;  // Precomputed at translation time
+					uint64_t mask = (~0ULL >> (64 - width)) << lsbd;  // Precomputed at translation time
 					uint64_t inv_mask = ~mask;  // Precomputed at translation time
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (" +
 						emit.reg(instr.ri16.rd) + " & " + std::to_string(inv_mask) + "ULL) | ((" +
@@ -1407,7 +1407,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t msbw = (instr.whole >> 16) & 0x1F;
 				uint32_t lsbw = (instr.whole >> 10) & 0x1F;
 				uint32_t width = msbw - lsbw + 1;
-				uint32_t mask = (1U << width) - 1;  // Precomputed at translation time
+				uint32_t mask = ~0U >> ((32 - width) & 31);  // Precomputed at translation time
 				if (lsbw == 0) {
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (int32_t)(" +
 						emit.reg(instr.ri16.rj) + " & " + std::to_string(mask) + "U);");
@@ -1423,7 +1423,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t msbd = (instr.whole >> 16) & 0x3F;
 				uint32_t lsbd = (instr.whole >> 10) & 0x3F;
 				uint32_t width = msbd - lsbd + 1;
-				uint64_t mask = (1ULL << width) - 1;  // Precomputed at translation time
+				uint64_t mask = ~0ULL >> ((64 - width) & 63);  // Precomputed at translation time
 				if (lsbd == 0 && instr.ri16.rd == instr.ri16.rj) {
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " &= " +
 						std::to_string(mask) + "ULL;");
-- 
2.43.0


From b369d3a707d3c49cb5aacac65965a832a55df732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 05/34] fix: floating-point and vector instruction semantics

Saturating float-to-integer conversion, comparison conditions, classification,
signs of the negated multiply-adds, FCSR fields, and lane selection of
several LSX/LASX instructions.
---
 lib/libloong/la_instr_impl.hpp | 392 +++++++++++++++------------------
 lib/libloong/tr_emit.cpp       |  16 +-
 2 files changed, 182 insertions(+), 226 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 96cfe3f..fb69726 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2,6 +2,7 @@
 #include "cpu.hpp"
 #include "la_instr.hpp"
 #include <cmath>
+#include <limits>
 
 namespace loongarch {
 
@@ -10,6 +11,32 @@ struct InstrImpl {
 	using addr_t = address_t;
 	using saddr_t = std::make_signed_t<addr_t>;
 
+	// Convert to integer with truncation: saturates, and NaN becomes zero
+	template <typename I, typename F>
+	static I fp_truncate(F val) {
+		if (std::isnan(val)) return 0;
+		val = std::trunc(val);
+		constexpr F limit = -static_cast<F>(std::numeric_limits<I>::min());
+		if (val >= limit) return std::numeric_limits<I>::max();
+		if (val < -limit) return std::numeric_limits<I>::min();
+		return static_cast<I>(val);
+	}
+
+	// Evaluate a floating-point comparison condition
+	template <typename F>
+	static bool fp_condition(uint32_t cond, F a, F b) {
+		const bool unordered = std::isnan(a) || std::isnan(b);
+		bool result = false;
+		if (cond & 0x02) result |= (a < b);
+		if (cond & 0x04) result |= (a == b);
+		if (cond & 0x08) result |= unordered;
+		if (cond & 0x10) result |= (a < b) || (a > b);
+		return result;
+	}
+	static constexpr bool fp_condition_exists(uint32_t cond) {
+		return cond < 0x10 || (cond & 0x1A) == 0x10 || (cond & 0x1E) == 0x18;
+	}
+
 	// === Arithmetic Instructions ===
 
 	static void ADD_W(cpu_t& cpu, la_instruction instr) {
@@ -852,8 +879,10 @@ struct InstrImpl {
 		// Move FCSR (floating-point control/status register) to GPR
 		uint32_t rd = instr.whole & 0x1F;
 		if (rd == 0) return; // Writes to x0 are discarded
-		// Note: fcsr index is in bits [9:5] but for FCSR0 it's always 0
-		cpu.reg(rd) = cpu.registers().fcsr();
+		// FCSR1-3 are views of the enable, flag/cause and rounding-mode fields of FCSR0
+		static constexpr uint32_t masks[4] = { 0xFFFFFFFF, 0x0000001F, 0x1F1F0000, 0x00000300 };
+		const uint32_t fcsr = (instr.whole >> 5) & 0x3;
+		cpu.reg(rd) = (int64_t)(int32_t)(cpu.registers().fcsr() & masks[fcsr]);
 	}
 
 	static void MOVFR2CF(cpu_t& cpu, la_instruction instr) {
@@ -1140,18 +1169,19 @@ struct InstrImpl {
 		int fpclass = std::fpclassify(val);
 		bool is_neg = std::signbit(val);
 
-		// FCLASS returns a 10-bit mask indicating the class
+		// FCLASS returns a 10-bit mask indicating the class:
+		// sNaN, qNaN, then infinity, normal, subnormal, zero for negative and for positive values
 		uint32_t result = 0;
 		if (fpclass == FP_NAN) {
-			if (std::isnan(val)) result = is_neg ? 0x001 : 0x200; // sNaN or qNaN
+			result = (vr_j.wu[0] & (uint32_t(1) << 22)) ? 0x002 : 0x001;
 		} else if (fpclass == FP_INFINITE) {
-			result = is_neg ? 0x002 : 0x100;
-		} else if (fpclass == FP_ZERO) {
-			result = is_neg ? 0x004 : 0x080;
-		} else if (fpclass == FP_SUBNORMAL) {
-			result = is_neg ? 0x008 : 0x040;
+			result = is_neg ? 0x004 : 0x040;
 		} else if (fpclass == FP_NORMAL) {
-			result = is_neg ? 0x010 : 0x020;
+			result = is_neg ? 0x008 : 0x080;
+		} else if (fpclass == FP_SUBNORMAL) {
+			result = is_neg ? 0x010 : 0x100;
+		} else if (fpclass == FP_ZERO) {
+			result = is_neg ? 0x020 : 0x200;
 		}
 		vr_d.wu[0] = result;
 	}
@@ -1168,18 +1198,19 @@ struct InstrImpl {
 		int fpclass = std::fpclassify(val);
 		bool is_neg = std::signbit(val);
 
-		// FCLASS returns a 10-bit mask indicating the class
+		// FCLASS returns a 10-bit mask indicating the class:
+		// sNaN, qNaN, then infinity, normal, subnormal, zero for negative and for positive values
 		uint64_t result = 0;
 		if (fpclass == FP_NAN) {
-			if (std::isnan(val)) result = is_neg ? 0x001 : 0x200; // sNaN or qNaN
+			result = (vr_j.du[0] & (uint64_t(1) << 51)) ? 0x002 : 0x001;
 		} else if (fpclass == FP_INFINITE) {
-			result = is_neg ? 0x002 : 0x100;
-		} else if (fpclass == FP_ZERO) {
-			result = is_neg ? 0x004 : 0x080;
-		} else if (fpclass == FP_SUBNORMAL) {
-			result = is_neg ? 0x008 : 0x040;
+			result = is_neg ? 0x004 : 0x040;
 		} else if (fpclass == FP_NORMAL) {
-			result = is_neg ? 0x010 : 0x020;
+			result = is_neg ? 0x008 : 0x080;
+		} else if (fpclass == FP_SUBNORMAL) {
+			result = is_neg ? 0x010 : 0x100;
+		} else if (fpclass == FP_ZERO) {
+			result = is_neg ? 0x020 : 0x200;
 		}
 		vr_d.du[0] = result;
 	}
@@ -1256,7 +1287,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int32_t int_val = static_cast<int32_t>(std::trunc(vr_j.f[0]));
+		int32_t int_val = fp_truncate<int32_t>(vr_j.f[0]);
 		vr_d.w[0] = int_val;
 	}
 
@@ -1268,7 +1299,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int32_t int_val = static_cast<int32_t>(std::trunc(vr_j.df[0]));
+		int32_t int_val = fp_truncate<int32_t>(vr_j.df[0]);
 		vr_d.w[0] = int_val;
 	}
 
@@ -1280,7 +1311,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int64_t int_val = static_cast<int64_t>(std::trunc(vr_j.f[0]));
+		int64_t int_val = fp_truncate<int64_t>(vr_j.f[0]);
 		vr_d.d[0] = int_val;
 	}
 
@@ -1292,7 +1323,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int64_t int_val = static_cast<int64_t>(std::trunc(vr_j.df[0]));
+		int64_t int_val = fp_truncate<int64_t>(vr_j.df[0]);
 		vr_d.d[0] = int_val;
 	}
 
@@ -1485,23 +1516,23 @@ struct InstrImpl {
 	}
 
 	static void FNMSUB_S(cpu_t& cpu, la_instruction instr) {
-		// Fused negative multiply-subtract (single precision): fd = -(fj * fk - fa) = fa - fj * fk
+		// Fused negative multiply-subtract (single precision): fd = -(fj * fk - fa)
 		// 4R-type: fd[4:0], fj[9:5], fk[14:10], fa[19:15]
 		const auto& vr_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_a.f[0] - vr_j.f[0] * vr_k.f[0];
+		vr_d.f[0] = -(vr_j.f[0] * vr_k.f[0] - vr_a.f[0]);
 	}
 
 	static void FNMSUB_D(cpu_t& cpu, la_instruction instr) {
-		// Fused negative multiply-subtract (double precision): fd = -(fj * fk - fa) = fa - fj * fk
+		// Fused negative multiply-subtract (double precision): fd = -(fj * fk - fa)
 		// 4R-type: fd[4:0], fj[9:5], fk[14:10], fa[19:15]
 		const auto& vr_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_a.df[0] - vr_j.df[0] * vr_k.df[0];
+		vr_d.df[0] = -(vr_j.df[0] * vr_k.df[0] - vr_a.df[0]);
 	}
 
 	static void CLO_W(cpu_t& cpu, la_instruction instr) {
@@ -2081,22 +2112,19 @@ struct InstrImpl {
 
 	static void XVHADDW_D_W(cpu_t& cpu, la_instruction instr) {
 		// XVHADDW.D.W: LASX vector horizontal add with widening (word to doubleword, 256-bit)
-		// Adds adjacent pairs of 32-bit signed words from xj and produces 64-bit results
-		// Takes all 8 words from xj, produces 4 doublewords
+		// Adds the odd signed words of xj to the even signed words of xk, producing 4 doublewords
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		//uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
 		const auto& src_j = cpu.registers().getvr(xj);
-		//const auto& src_k = cpu.registers().getvr(xk);
+		const auto& src_k = cpu.registers().getvr(xk);
 
 		// Read all inputs first to handle register aliasing
-		// Takes all 8 words from xj: pairs (0,1), (2,3), (4,5), (6,7) → 4 doublewords
-		// xk is unused (or maybe used for other operand in 3-register form)
-		int64_t r0 = (int64_t)src_j.w[0] + (int64_t)src_j.w[1];
-		int64_t r1 = (int64_t)src_j.w[2] + (int64_t)src_j.w[3];
-		int64_t r2 = (int64_t)src_j.w[4] + (int64_t)src_j.w[5];
-		int64_t r3 = (int64_t)src_j.w[6] + (int64_t)src_j.w[7];
+		int64_t r0 = (int64_t)src_j.w[1] + (int64_t)src_k.w[0];
+		int64_t r1 = (int64_t)src_j.w[3] + (int64_t)src_k.w[2];
+		int64_t r2 = (int64_t)src_j.w[5] + (int64_t)src_k.w[4];
+		int64_t r3 = (int64_t)src_j.w[7] + (int64_t)src_k.w[6];
 
 		auto& dst = cpu.registers().getvr(xd);
 		dst.d[0] = r0;
@@ -2178,79 +2206,29 @@ struct InstrImpl {
 		const auto& src2 = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
+		if (!fp_condition_exists(cond)) {
+			throw MachineException(ILLEGAL_OPCODE,
+				"XVFCMP.COND.D: Unsupported condition code", instr.whole);
+		}
 		// For each of 4 double elements
 		for (int i = 0; i < 4; i++) {
-			double val1 = src1.df[i];
-			double val2 = src2.df[i];
-			switch (cond) {
-				case 0x02: // CLT - (Quiet) Less Than (ordered)
-				case 0x03: // SLT - Signaling Less Than (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 < val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x04: // CEQ - Equal (ordered)
-				case 0x05: // SEQ - Signaling Equal (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 == val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x06: // CLE - (Quiet) Less or Equal (ordered)
-				case 0x07: // SLE - Signaling Less or Equal (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x0E: // CULE - (Quiet) Unordered or Less or Equal
-				case 0x0F: // SULE - Signaling Unordered or Less or Equal
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = UINT64_MAX;
-					} else {
-						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x14: // COR - (Quiet) Ordered
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = UINT64_MAX;
-					}
-					break;
-				case 0x18: // CUNE - (Quiet) Unordered or Not Equal
-				case 0x19: // SUNE - Signaling Unordered or Not Equal
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = UINT64_MAX;
-					} else {
-						dst.du[i] = (val1 != val2) ? UINT64_MAX : 0;
-					}
-					break;
-				default:
-					dst.du[i] = 0;
-					break;
-			}
+			dst.du[i] = fp_condition(cond, src1.df[i], src2.df[i]) ? UINT64_MAX : 0;
 		}
 	}
 
 	static void XVHADDW_Q_D(cpu_t& cpu, la_instruction instr) {
 		// XVHADDW.Q.D: LASX vector horizontal add with widening (doubleword to quadword, 256-bit)
-		// Adds adjacent pairs of 64-bit signed doublewords and produces 128-bit results
+		// Adds the odd signed doublewords of xj to the even signed doublewords of xk, producing 2 quadwords
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		//uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
 		const auto& src1 = cpu.registers().getvr(xj);
-		//const auto& src2 = cpu.registers().getvr(xk);
+		const auto& src2 = cpu.registers().getvr(xk);
 
 		// Read all inputs first to handle register aliasing
-		// Takes all 4 doublewords from xj: pairs (0,1), (2,3) → 2 quadwords
-		__int128 q0 = (__int128)src1.d[0] + (__int128)src1.d[1];
-		__int128 q1 = (__int128)src1.d[2] + (__int128)src1.d[3];
+		__int128 q0 = (__int128)src1.d[1] + (__int128)src2.d[0];
+		__int128 q1 = (__int128)src1.d[3] + (__int128)src2.d[2];
 
 		// Store quadwords as pairs of doublewords
 		auto& dst = cpu.registers().getvr(xd);
@@ -2445,8 +2423,8 @@ struct InstrImpl {
 		uint32_t vj = (instr.whole >> 5) & 0x1F;
 		uint32_t vk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(vj);
-		const auto& src_k = cpu.registers().getvr(vk);
+		const auto src_j = cpu.registers().getvr(vj);
+		const auto src_k = cpu.registers().getvr(vk);
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Pick even words: dst = [vk[0], vk[2], vj[0], vj[2]]
@@ -2840,10 +2818,10 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Convert each single-precision float to int32 with truncation towards zero
-		dst.w[0] = (int32_t)src.f[0];
-		dst.w[1] = (int32_t)src.f[1];
-		dst.w[2] = (int32_t)src.f[2];
-		dst.w[3] = (int32_t)src.f[3];
+		dst.w[0] = fp_truncate<int32_t>(src.f[0]);
+		dst.w[1] = fp_truncate<int32_t>(src.f[1]);
+		dst.w[2] = fp_truncate<int32_t>(src.f[2]);
+		dst.w[3] = fp_truncate<int32_t>(src.f[3]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -2858,8 +2836,8 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Convert each double-precision float to int64 with truncation towards zero
-		dst.d[0] = (int64_t)src.df[0];
-		dst.d[1] = (int64_t)src.df[1];
+		dst.d[0] = fp_truncate<int64_t>(src.df[0]);
+		dst.d[1] = fp_truncate<int64_t>(src.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -2882,14 +2860,14 @@ struct InstrImpl {
 
 	static void VFNMADD_D(cpu_t& cpu, la_instruction instr) {
 		// VFNMADD.D: Vector fused negative multiply-add (double precision, 2x64-bit)
-		// 4R-type format: vd = -(vj * vk) + va = va - vj * vk
+		// 4R-type format: vd = -(vj * vk + va)
 		const auto& src_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& src_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& src_a = cpu.registers().getvr(instr.r4.ra);
 		auto& dst = cpu.registers().getvr(instr.r4.rd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
+		dst.df[0] = -(src_a.df[0] + src_j.df[0] * src_k.df[0]);
+		dst.df[1] = -(src_a.df[1] + src_j.df[1] * src_k.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -3001,8 +2979,7 @@ struct InstrImpl {
 
 	static void VFRSTPI_B(cpu_t& cpu, la_instruction instr) {
 		// VFRSTPI.B vd, vj, ui5
-		// Find first set position in vector (starting from ui5)
-		// Sets vd[0] to the position of first non-zero byte starting from position ui5
+		// Find the first negative byte of vj, and store its index in byte (ui5 % 16) of vd
 		uint32_t vd = instr.whole & 0x1F;
 		uint32_t vj = (instr.whole >> 5) & 0x1F;
 		uint32_t ui5 = (instr.whole >> 10) & 0x1F;
@@ -3010,19 +2987,18 @@ struct InstrImpl {
 		const auto& src = cpu.registers().getvr(vj);
 		auto& dst = cpu.registers().getvr(vd);
 
-		// Find first non-zero byte starting from ui5
 		uint8_t pos = 16; // Default: not found
-		for (int i = ui5; i < 16; i++) {
-			uint8_t byte = src.bu[i];
-			if (byte != 0) {
+		for (int i = 0; i < 16; i++) {
+			if (src.b[i] < 0) {
 				pos = i;
 				break;
 			}
 		}
 
-		// Store result in first byte of vd, clear rest
-		dst.du[0] = pos;
-		dst.du[1] = 0;
+		// Only the selected byte of vd changes
+		dst.bu[ui5 & 15] = pos;
+		dst.du[2] = 0;
+		dst.du[3] = 0;
 	}
 
 	static void BCNEZ(cpu_t& cpu, la_instruction instr) {
@@ -3605,7 +3581,7 @@ struct InstrImpl {
 
 	static void XVMSKNZ_B(cpu_t& cpu, la_instruction instr) {
 		// XVMSKNZ.B xd, xj
-		// Create a 32-bit mask where each bit indicates if corresponding byte is non-zero
+		// For each 128-bit lane, create a 16-bit mask where each bit indicates if the corresponding byte is non-zero
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 
@@ -3622,9 +3598,9 @@ struct InstrImpl {
 			}
 		}
 
-		dst.du[0] = mask;
+		dst.du[0] = mask & 0xFFFF;
 		dst.du[1] = 0;
-		dst.du[2] = 0;
+		dst.du[2] = mask >> 16;
 		dst.du[3] = 0;
 	}
 
@@ -3846,25 +3822,20 @@ struct InstrImpl {
 	}
 
 	static void XVREPLVE_D(cpu_t& cpu, la_instruction instr) {
-		// XVREPLVE.D: LASX vector replicate element from register (double precision)
-		// Replicates element selected by rj to all elements in xd from vector xk
-		// Format: xd[i] = xk[rj % 4] for all i
+		// XVREPLVE.D: LASX vector replicate element selected by a register (double-word)
+		// Format: xd, xj, rk - in each 128-bit lane, element (rk % 2) of xj is replicated
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t rk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src = cpu.registers().getvr(xk);
+		const auto src = cpu.registers().getvr(xj);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Get the element index from register rj (modulo 4 for double elements)
-		uint32_t idx = cpu.reg(xj) & 0x3;
-
-		// Replicate the selected element to all 4 positions
-		uint64_t value = src.du[idx];
-		dst.du[0] = value;
-		dst.du[1] = value;
-		dst.du[2] = value;
-		dst.du[3] = value;
+		const uint32_t idx = cpu.reg(rk) & 0x1;
+		dst.du[0] = src.du[idx];
+		dst.du[1] = src.du[idx];
+		dst.du[2] = src.du[2 + idx];
+		dst.du[3] = src.du[2 + idx];
 	}
 
 	static void XVFMADD_S(cpu_t& cpu, la_instruction instr) {
@@ -3906,7 +3877,7 @@ struct InstrImpl {
 
 	static void XVFMSUB_S(cpu_t& cpu, la_instruction instr) {
 		// XVFMSUB.S: LASX vector fused multiply-subtract (single precision, 8x32-bit)
-		// 4R-type format: xd = xa - xj * xk
+		// 4R-type format: xd = xj * xk - xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3918,13 +3889,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] - src_j.f[i] * src_k.f[i];
+			dst.f[i] = src_j.f[i] * src_k.f[i] - src_a.f[i];
 		}
 	}
 
 	static void XVFMSUB_D(cpu_t& cpu, la_instruction instr) {
 		// XVFMSUB.D: LASX vector fused multiply-subtract (double precision, 4x64-bit)
-		// 4R-type format: xd = xa - xj * xk
+		// 4R-type format: xd = xj * xk - xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3935,15 +3906,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] - src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] - src_j.df[3] * src_k.df[3];
+		dst.df[0] = src_j.df[0] * src_k.df[0] - src_a.df[0];
+		dst.df[1] = src_j.df[1] * src_k.df[1] - src_a.df[1];
+		dst.df[2] = src_j.df[2] * src_k.df[2] - src_a.df[2];
+		dst.df[3] = src_j.df[3] * src_k.df[3] - src_a.df[3];
 	}
 
 	static void XVFNMADD_S(cpu_t& cpu, la_instruction instr) {
 		// XVFNMADD.S: LASX vector fused negative multiply-add (single precision, 8x32-bit)
-		// 4R-type format: xd = -(xj * xk) + xa = xa - xj * xk
+		// 4R-type format: xd = -(xj * xk + xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3955,13 +3926,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] - src_j.f[i] * src_k.f[i];
+			dst.f[i] = -(src_a.f[i] + src_j.f[i] * src_k.f[i]);
 		}
 	}
 
 	static void XVFNMADD_D(cpu_t& cpu, la_instruction instr) {
 		// XVFNMADD.D: LASX vector fused negative multiply-add (double precision, 4x64-bit)
-		// 4R-type format: xd = -(xj * xk) + xa = xa - xj * xk
+		// 4R-type format: xd = -(xj * xk + xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3972,15 +3943,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] - src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] - src_j.df[3] * src_k.df[3];
+		dst.df[0] = -(src_a.df[0] + src_j.df[0] * src_k.df[0]);
+		dst.df[1] = -(src_a.df[1] + src_j.df[1] * src_k.df[1]);
+		dst.df[2] = -(src_a.df[2] + src_j.df[2] * src_k.df[2]);
+		dst.df[3] = -(src_a.df[3] + src_j.df[3] * src_k.df[3]);
 	}
 
 	static void XVFNMSUB_S(cpu_t& cpu, la_instruction instr) {
 		// XVFNMSUB.S: LASX vector fused negative multiply-subtract (single precision, 8x32-bit)
-		// 4R-type format: xd = -(xj * xk) - xa = -xa - xj * xk
+		// 4R-type format: xd = -(xj * xk - xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3992,13 +3963,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = -(src_a.f[i] + src_j.f[i] * src_k.f[i]);
+			dst.f[i] = -(src_j.f[i] * src_k.f[i] - src_a.f[i]);
 		}
 	}
 
 	static void XVFNMSUB_D(cpu_t& cpu, la_instruction instr) {
 		// XVFNMSUB.D: LASX vector fused negative multiply-subtract (double precision, 4x64-bit)
-		// 4R-type format: xd = -(xj * xk) - xa = -xa - xj * xk
+		// 4R-type format: xd = -(xj * xk - xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4009,10 +3980,10 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = -(src_a.df[0] + src_j.df[0] * src_k.df[0]);
-		dst.df[1] = -(src_a.df[1] + src_j.df[1] * src_k.df[1]);
-		dst.df[2] = -(src_a.df[2] + src_j.df[2] * src_k.df[2]);
-		dst.df[3] = -(src_a.df[3] + src_j.df[3] * src_k.df[3]);
+		dst.df[0] = -(src_j.df[0] * src_k.df[0] - src_a.df[0]);
+		dst.df[1] = -(src_j.df[1] * src_k.df[1] - src_a.df[1]);
+		dst.df[2] = -(src_j.df[2] * src_k.df[2] - src_a.df[2]);
+		dst.df[3] = -(src_j.df[3] * src_k.df[3] - src_a.df[3]);
 	}
 
 	static void XVORI_B(cpu_t& cpu, la_instruction instr) {
@@ -4053,38 +4024,34 @@ struct InstrImpl {
 
 	static void XVILVL_D(cpu_t& cpu, la_instruction instr) {
 		// XVILVL.D: LASX vector interleave low double-word (256-bit)
-		// Interleaves the low 128-bit double-words from two 256-bit vectors
+		// Interleaves the low double-words of each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Interleave: dst[0] = src_k[0], dst[1] = src_j[0], dst[2] = src_k[1], dst[3] = src_j[1]
-		// For LASX (256-bit), we interleave the low 2 double-words (128-bit) from each source
 		dst.du[0] = src_k.du[0];
 		dst.du[1] = src_j.du[0];
-		dst.du[2] = src_k.du[1];
-		dst.du[3] = src_j.du[1];
+		dst.du[2] = src_k.du[2];
+		dst.du[3] = src_j.du[2];
 	}
 
 	static void XVILVH_D(cpu_t& cpu, la_instruction instr) {
 		// XVILVH.D: LASX vector interleave high double-word (256-bit)
-		// Interleaves the high 128-bit double-words from two 256-bit vectors
+		// Interleaves the high double-words of each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Interleave: dst[0] = src_k[2], dst[1] = src_j[2], dst[2] = src_k[3], dst[3] = src_j[3]
-		// For LASX (256-bit), we interleave the high 2 double-words (128-bit) from each source
-		dst.du[0] = src_k.du[2];
-		dst.du[1] = src_j.du[2];
+		dst.du[0] = src_k.du[1];
+		dst.du[1] = src_j.du[1];
 		dst.du[2] = src_k.du[3];
 		dst.du[3] = src_j.du[3];
 	}
@@ -4118,102 +4085,91 @@ struct InstrImpl {
 
 	static void XVPACKEV_D(cpu_t& cpu, la_instruction instr) {
 		// XVPACKEV.D: LASX vector pack even double-word (256-bit)
-		// Packs even-numbered elements (0, 2) from each source
-		// dst[0] = xj[0], dst[1] = xk[0], dst[2] = xj[2], dst[3] = xk[2]
+		// Packs the even double-words of each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pack even elements (0 and 2) from both sources
-		dst.du[0] = src_j.du[0];
-		dst.du[1] = src_k.du[0];
-		dst.du[2] = src_j.du[2];
-		dst.du[3] = src_k.du[2];
+		dst.du[0] = src_k.du[0];
+		dst.du[1] = src_j.du[0];
+		dst.du[2] = src_k.du[2];
+		dst.du[3] = src_j.du[2];
 	}
 
 	static void XVPACKOD_D(cpu_t& cpu, la_instruction instr) {
 		// XVPACKOD.D: LASX vector pack odd double-word (256-bit)
-		// Packs odd-numbered elements (1, 3) from each source
-		// dst[0] = xj[1], dst[1] = xk[1], dst[2] = xj[3], dst[3] = xk[3]
+		// Packs the odd double-words of each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pack odd elements (1 and 3) from both sources
-		dst.du[0] = src_j.du[1];
-		dst.du[1] = src_k.du[1];
-		dst.du[2] = src_j.du[3];
-		dst.du[3] = src_k.du[3];
+		dst.du[0] = src_k.du[1];
+		dst.du[1] = src_j.du[1];
+		dst.du[2] = src_k.du[3];
+		dst.du[3] = src_j.du[3];
 	}
 
 	static void XVPICKEV_D(cpu_t& cpu, la_instruction instr) {
 		// XVPICKEV.D: LASX vector pick even double-word (256-bit)
-		// Picks even elements from both sources in a different pattern than PACKEV
-		// dst[0] = xj[0], dst[1] = xj[2], dst[2] = xk[0], dst[3] = xk[2]
+		// Picks the even double-words of each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick even elements (0 and 2) from both sources
-		dst.du[0] = src_j.du[0];
-		dst.du[1] = src_j.du[2];
-		dst.du[2] = src_k.du[0];
-		dst.du[3] = src_k.du[2];
+		dst.du[0] = src_k.du[0];
+		dst.du[1] = src_j.du[0];
+		dst.du[2] = src_k.du[2];
+		dst.du[3] = src_j.du[2];
 	}
 
 	static void XVPICKEV_W(cpu_t& cpu, la_instruction instr) {
 		// XVPICKEV.W: LASX vector pick even word (256-bit)
-		// Picks even-indexed words from both sources
-		// dst[0] = xj[0], dst[1] = xj[2], dst[2] = xj[4], dst[3] = xj[6]
-		// dst[4] = xk[0], dst[5] = xk[2], dst[6] = xk[4], dst[7] = xk[6]
+		// Picks the even words of each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick even words (indices 0, 2, 4, 6) from both sources
-		dst.w[0] = src_j.w[0];
-		dst.w[1] = src_j.w[2];
-		dst.w[2] = src_j.w[4];
-		dst.w[3] = src_j.w[6];
-		dst.w[4] = src_k.w[0];
-		dst.w[5] = src_k.w[2];
-		dst.w[6] = src_k.w[4];
-		dst.w[7] = src_k.w[6];
+		dst.w[0] = src_k.w[0];
+		dst.w[1] = src_k.w[2];
+		dst.w[2] = src_j.w[0];
+		dst.w[3] = src_j.w[2];
+		dst.w[4] = src_k.w[4];
+		dst.w[5] = src_k.w[6];
+		dst.w[6] = src_j.w[4];
+		dst.w[7] = src_j.w[6];
 	}
 
 	static void XVPICKOD_D(cpu_t& cpu, la_instruction instr) {
 		// XVPICKOD.D: LASX vector pick odd double-word (256-bit)
-		// Picks odd elements from both sources
-		// dst[0] = xj[1], dst[1] = xj[3], dst[2] = xk[1], dst[3] = xk[3]
+		// Picks the odd double-words of each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick odd elements (1 and 3) from both sources
-		dst.du[0] = src_j.du[1];
-		dst.du[1] = src_j.du[3];
-		dst.du[2] = src_k.du[1];
-		dst.du[3] = src_k.du[3];
+		dst.du[0] = src_k.du[1];
+		dst.du[1] = src_j.du[1];
+		dst.du[2] = src_k.du[3];
+		dst.du[3] = src_j.du[3];
 	}
 
 	static void XVLDI(cpu_t& cpu, la_instruction instr) {
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 2232d84..578fadb 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -1697,27 +1697,27 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			break;
 		}
 		case InstrId::FNMSUB_D: {
-			// fd = -(fj * fk - fa) = fa - fj * fk
+			// fd = -(fj * fk - fa)
 			uint32_t fd = instr.r4.rd;
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
 			emit.add_code("  " + emit.freg64(fd) + " = "
-				"-" + emit.freg64(fj) + " * "
-				+ emit.freg64(fk) + " + "
-				+ emit.freg64(fa) + ";");
+				"-(" + emit.freg64(fj) + " * "
+				+ emit.freg64(fk) + " - "
+				+ emit.freg64(fa) + ");");
 			break;
 		}
 		case InstrId::FNMSUB_S: {
-			// fd = -(fj * fk - fa) = fa - fj * fk
+			// fd = -(fj * fk - fa)
 			uint32_t fd = instr.r4.rd;
 			uint32_t fj = instr.r4.rj;
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
 			emit.add_code("  " + emit.freg32(fd) + " = "
-				"-" + emit.freg32(fj) + " * "
-				+ emit.freg32(fk) + " + "
-				+ emit.freg32(fa) + ";");
+				"-(" + emit.freg32(fj) + " * "
+				+ emit.freg32(fk) + " - "
+				+ emit.freg32(fa) + ");");
 			break;
 		}
 
-- 
2.43.0


From b2570f19dffb8dc1eb6604ac14b8afd6c515b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 06/34] fix: 21-bit offsets of bceqz and bcnez

---
 lib/libloong/la_instr_impl.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index fb69726..100b758 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3005,11 +3005,7 @@ struct InstrImpl {
 		// BCNEZ: Branch if condition flag is not equal to zero
 		// Format: 0x48xxxxxx
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		// Sign extend
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		const int32_t offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) != 0) {
 			cpu.increment_pc(offset-4);
@@ -3019,10 +3015,7 @@ struct InstrImpl {
 	static void BCEQZ(cpu_t& cpu, la_instruction instr) {
 		// BCEQZ: Branch if condition flag equals zero
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		const int32_t offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) == 0) {
 			cpu.increment_pc(offset-4);
-- 
2.43.0


From 79ea7fbc8696546e5f180e7719a06db210508e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 07/34] fix: operand lanes of vhaddw.d.w, saturating
 conversions without a temporary

---
 lib/libloong/bytecode_impl.cpp | 6 +++---
 lib/libloong/la_instr_impl.hpp | 8 +++-----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index ffa2d1d..8f4bc2f 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -628,9 +628,9 @@ INSTRUCTION(LA64_BC_VHADDW_D_W, la64_vhaddw_d_w)
 	const auto& src1 = REGISTERS().getvr(fi.rj);
 	const auto& src2 = REGISTERS().getvr(fi.rk);
 
-	// Add adjacent pairs: vj[0]+vj[1], vk[0]+vk[1]
-	const int64_t res1 = (int64_t)(int32_t)src1.w[0] + (int64_t)(int32_t)src1.w[1];
-	const int64_t res2 = (int64_t)(int32_t)src2.w[0] + (int64_t)(int32_t)src2.w[1];
+	// Add the odd words of vj to the even words of vk
+	const int64_t res1 = (int64_t)src1.w[1] + (int64_t)src2.w[0];
+	const int64_t res2 = (int64_t)src1.w[3] + (int64_t)src2.w[2];
 	dst.d[0] = res1;
 	dst.d[1] = res2;
 	// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 100b758..5d6e66f 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -15,7 +15,6 @@ struct InstrImpl {
 	template <typename I, typename F>
 	static I fp_truncate(F val) {
 		if (std::isnan(val)) return 0;
-		val = std::trunc(val);
 		constexpr F limit = -static_cast<F>(std::numeric_limits<I>::min());
 		if (val >= limit) return std::numeric_limits<I>::max();
 		if (val < -limit) return std::numeric_limits<I>::min();
@@ -2095,14 +2094,13 @@ struct InstrImpl {
 
 	static void VHADDW_D_W(cpu_t& cpu, la_instruction instr) {
 		// VHADDW.D.W: Vector horizontal add with widening (word to doubleword)
-		// Adds adjacent pairs of 32-bit signed words and produces 64-bit results
+		// Adds the odd signed words of vj to the even signed words of vk, producing 64-bit results
 		const auto& src1 = cpu.registers().getvr(instr.r3.rj);
 		const auto& src2 = cpu.registers().getvr(instr.r3.rk);
 		auto& dst = cpu.registers().getvr(instr.r3.rd);
 
-		// Add adjacent pairs: vj[0]+vj[1], vk[0]+vk[1]
-		const int64_t res1 = (int64_t)src1.w[0] + (int64_t)src1.w[1];
-		const int64_t res2 = (int64_t)src2.w[0] + (int64_t)src2.w[1];
+		const int64_t res1 = (int64_t)src1.w[1] + (int64_t)src2.w[0];
+		const int64_t res2 = (int64_t)src1.w[3] + (int64_t)src2.w[2];
 		dst.d[0] = res1;
 		dst.d[1] = res2;
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
-- 
2.43.0


From 0a2a107f4bed11282177f18b269f7cb3f232b7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 08/34] fix: zero-register, sltui and ori rewriting in the
 decoder cache

---
 lib/libloong/decoder_cache.cpp     | 10 +---------
 lib/libloong/threaded_rewriter.cpp | 10 ++++++----
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 6f0b101..82da4e3 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -63,15 +63,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 				}
 				return LA64_BC_OR;
 			}
-		case InstrId::ORI:
-			// MOVE is ORI with imm==0
-			{
-				const uint32_t imm = instr & 0xFFF;
-				if (imm == 0) {
-					return LA64_BC_MOVE;
-				}
-				return LA64_BC_ORI;
-			}
+		case InstrId::ORI: return LA64_BC_ORI;
 
 		case InstrId::LD_D: return LA64_BC_LD_D;
 		case InstrId::ST_D: return LA64_BC_ST_D;
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 5ce172a..994b04f 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -227,6 +227,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_PCALAU12I:
 		case LA64_BC_LU12I_W:
 			// No optimization needed - use original instruction bits
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_LDPTR_D: {
 			auto fi = *(FasterLA64_RI14 *)&instruction_bits;
@@ -638,12 +639,12 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			return fi.whole;
 		} break;
 		case LA64_BC_SLTUI: {
-			// SLTUI rd, rj, imm12 - uses RI12 format with zero-extended immediate
+			// SLTUI rd, rj, imm12 - uses RI12 format with sign-extended immediate
 			auto fi = *(FasterLA64_RI12 *)&instruction_bits;
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
-			// SLTUI uses zero-extended immediate for unsigned comparison
-			fi.imm = original.ri12.imm & 0xFFF;
+			// SLTUI sign-extends the immediate, and then compares as unsigned
+			fi.set_imm(original.ri12.imm);
 			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
@@ -676,9 +677,11 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		} break;
 		case LA64_BC_PCADDU12I:
 			// PCADDU12I uses PC, handled as diverging instruction
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_PCADDU18I:
 			// PCADDU18I uses PC, handled as diverging instruction
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_ANDN: {
 			// ANDN rd, rj, rk - uses R3 format
@@ -695,7 +698,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_EXT_W_H: {
-- 
2.43.0


From 4d4f2f49353125b3a5a24d969123c6e254c54659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 09/34] fix: LSX bytecodes clear the upper 128 bits like their
 handlers

---
 lib/libloong/bytecode_impl.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 8f4bc2f..0406ae8 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -559,6 +559,10 @@ INSTRUCTION(LA64_BC_VLD, la64_vld)
 	const auto addr = REG(fi.rj) + fi.imm;
 	auto& vr = REGISTERS().getvr128low(fi.rd);
 	vr = MACHINE().memory.template read<remove_cvref_t<decltype(vr)>, true>(addr);
+	// LSX instructions clear the upper 128 bits
+	auto& vrd = REGISTERS().getvr(fi.rd);
+	vrd.du[2] = 0;
+	vrd.du[3] = 0;
 	NEXT_INSTR();
 }
 
@@ -579,6 +583,10 @@ INSTRUCTION(LA64_BC_VLDX, la64_vldx)
 	const auto addr = REG(fi.rj) + REG(fi.rk);
 	auto& vr = REGISTERS().getvr128low(fi.rd);
 	vr = MACHINE().memory.template read<remove_cvref_t<decltype(vr)>, true>(addr);
+	// LSX instructions clear the upper 128 bits
+	auto& vrd = REGISTERS().getvr(fi.rd);
+	vrd.du[2] = 0;
+	vrd.du[3] = 0;
 	NEXT_INSTR();
 }
 
@@ -602,6 +610,9 @@ INSTRUCTION(LA64_BC_VFADD_D, la64_vfadd_d)
 	// VFADD.D operates on 2 double-precision elements
 	vrd.df[0] = vrj.df[0] + vrk.df[0];
 	vrd.df[1] = vrj.df[1] + vrk.df[1];
+	// LSX instructions clear the upper 128 bits
+	vrd.du[2] = 0;
+	vrd.du[3] = 0;
 	NEXT_INSTR();
 }
 
@@ -617,6 +628,9 @@ INSTRUCTION(LA64_BC_VFMADD_D, la64_vfmadd_d)
 
 	dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
 	dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
+	// LSX instructions clear the upper 128 bits
+	dst.du[2] = 0;
+	dst.du[3] = 0;
 	NEXT_INSTR();
 }
 
-- 
2.43.0


From 0b3cf66616b0f3367863854981b15892588b00fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 10/34] fix: far branches and branches out of the segment in
 the decoder cache

---
 lib/libloong/bytecode_impl.cpp           | 10 ++++++++++
 lib/libloong/tailcall_bytecode_array.hpp |  1 +
 lib/libloong/threaded_bytecode_array.hpp |  1 +
 lib/libloong/threaded_bytecodes.hpp      | 23 +++++++++++------------
 lib/libloong/threaded_rewriter.cpp       | 12 ++++++------
 5 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 0406ae8..d02a10e 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1021,6 +1021,16 @@ INSTRUCTION(LA64_BC_REVB_4H, la64_revb_4h)
 	NEXT_INSTR();
 }
 
+// LA64_BC_FAR_BRANCH: Direct branch with a target outside of the current segment
+INSTRUCTION(LA64_BC_FAR_BRANCH, la64_far_branch)
+{
+	const la_instruction instr{DECODER().instr};
+	REGISTERS().pc = pc;
+	CPU().decode(instr).handler(CPU(), instr);
+	REG(REG_ZERO) = 0;
+	NEXT_BLOCK(REGISTERS().pc + 4 - pc);
+}
+
 // LA64_BC_INVALID: Invalid instruction
 INSTRUCTION(LA64_BC_INVALID, execute_invalid)
 {
diff --git a/lib/libloong/tailcall_bytecode_array.hpp b/lib/libloong/tailcall_bytecode_array.hpp
index 0909d7d..3716d3a 100644
--- a/lib/libloong/tailcall_bytecode_array.hpp
+++ b/lib/libloong/tailcall_bytecode_array.hpp
@@ -110,6 +110,7 @@
 [LA64_BC_BGE]       = la64_bge,
 [LA64_BC_BLTU]      = la64_bltu,
 [LA64_BC_BGEU]      = la64_bgeu,
+[LA64_BC_FAR_BRANCH]= la64_far_branch,
 
 [LA64_BC_FUNCTION]  = execute_decoded_function,
 [LA64_BC_FUNCTION2] = execute_function_extended,
diff --git a/lib/libloong/threaded_bytecode_array.hpp b/lib/libloong/threaded_bytecode_array.hpp
index 0340a6e..8985198 100644
--- a/lib/libloong/threaded_bytecode_array.hpp
+++ b/lib/libloong/threaded_bytecode_array.hpp
@@ -111,6 +111,7 @@ static constexpr void *computed_opcode[] = {
 	[LA64_BC_BGE]       = &&la64_bge,
 	[LA64_BC_BLTU]      = &&la64_bltu,
 	[LA64_BC_BGEU]      = &&la64_bgeu,
+	[LA64_BC_FAR_BRANCH]= &&la64_far_branch,
 
 	[LA64_BC_FUNCTION]  = &&execute_decoded_function,
 	[LA64_BC_FUNCTION2] = &&execute_function_extended,
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index 7d1e6da..11892ea 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -119,6 +119,7 @@ namespace loongarch
 		LA64_BC_BGE,               // Branch if greater than or equal
 		LA64_BC_BLTU,              // Branch if less than unsigned
 		LA64_BC_BGEU,              // Branch if greater than or equal unsigned
+		LA64_BC_FAR_BRANCH,        // Direct branch with a target outside of the segment
 
 		// Generic handlers
 		LA64_BC_FUNCTION,          // Non-PC-modifying instruction (simple handler call)
@@ -243,6 +244,7 @@ namespace loongarch
 		case LA64_BC_BGE: return "BGE";
 		case LA64_BC_BLTU: return "BLTU";
 		case LA64_BC_BGEU: return "BGEU";
+		case LA64_BC_FAR_BRANCH: return "FAR_BRANCH";
 		case LA64_BC_FUNCTION: return "FUNCTION";
 		case LA64_BC_FUNCTION2: return "FUNCTION";
 		case LA64_BC_SYSCALL: return "SYSCALL";
@@ -410,14 +412,12 @@ namespace loongarch
 	union FasterLA64_RI21_Branch {
 		uint32_t whole;
 		struct {
-			uint8_t rj;      // bits [4:0] - register to test (or condition flag for BC*)
-			uint8_t padding; // bits [12:5] - unused, available for future use
-			int16_t offset;  // bits [28:13] - pre-computed offset (sign-extended, already << 2)
+			uint32_t rj : 5;      // bits [4:0] - register to test (or condition flag for BC*)
+			int32_t  offset : 27; // bits [31:5] - pre-computed offset (sign-extended, already << 2)
 		};
 		void set_offset(int32_t offs) {
-			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
+			// The offset has already been << 2 in the optimizer (23 bits)
+			this->offset = offs;
 		}
 	};
 
@@ -425,14 +425,13 @@ namespace loongarch
 	union FasterLA64_RI16_Branch {
 		uint32_t whole;
 		struct {
-			uint8_t rd;      // bits [4:0] - first register
-			uint8_t rj;      // bits [9:5] - second register
-			int16_t offset;  // bits [25:10] - pre-computed offset (sign-extended, already << 2)
+			uint32_t rd : 5;      // bits [4:0] - first register
+			uint32_t rj : 5;      // bits [9:5] - second register
+			int32_t  offset : 22; // bits [31:10] - pre-computed offset (sign-extended, already << 2)
 		};
 		void set_offset(int32_t offs) {
-			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
+			// The offset has already been << 2 in the optimizer (18 bits)
+			this->offset = offs;
 		}
 	};
 
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 994b04f..a0cdbeb 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -33,12 +33,12 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_B:
 		case LA64_BC_BL: {
 			const auto offset = InstructionHelpers::sign_extend_26(original.i26.offs()) << 2;
-			// This is a local branch, so it better be within the segment
+			// Branches within the segment can use the pre-computed offset
 			if (this->is_within(pc + offset)) {
 				// The offset is the optimized instruction
 				return (int32_t)offset;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				bytecode = LA64_BC_FAR_BRANCH;
 				return original.whole;
 			}
 		} break;
@@ -58,7 +58,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 				fi.set_offset(offset);
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				bytecode = LA64_BC_FAR_BRANCH;
 				return original.whole;
 			}
 		} break;
@@ -766,7 +766,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			auto fi = *(FasterLA64_RI16_Branch *)&instruction_bits;
 			fi.rd = original.ri16.rd;
 			fi.rj = original.ri16.rj;
-			fi.offset = original.ri16.imm;
+			fi.offset = InstructionHelpers::sign_extend_16(original.ri16.imm);
 			return fi.whole;
 		} break;
 		case LA64_BC_BEQZ:
@@ -780,7 +780,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 				fi.set_offset(offset);
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				bytecode = LA64_BC_FAR_BRANCH;
 				return original.whole;
 			}
 		} break;
@@ -795,7 +795,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 				fi.set_offset(offset);
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				bytecode = LA64_BC_FAR_BRANCH;
 				return original.whole;
 			}
 		} break;
-- 
2.43.0


From 2098e6ce4a3f3e1f3a8ab187d0e3c58911499a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 11/34] fix: block lengths, breakpoints, coded system calls and
 the stop marker in the decoder cache

---
 lib/libloong/bytecode_impl.cpp                |  2 +-
 lib/libloong/decoder_cache.cpp                | 19 ++++++++++++++-----
 lib/libloong/decoder_cache.hpp                |  2 +-
 lib/libloong/tailcall_bytecode_array.hpp      |  1 +
 lib/libloong/tailcall_dispatch.cpp            | 19 +++++++++++++++++++
 lib/libloong/tailcall_inaccurate_dispatch.cpp | 17 +++++++++++++++++
 lib/libloong/threaded_bytecode_array.hpp      |  1 +
 lib/libloong/threaded_bytecodes.hpp           |  4 +++-
 lib/libloong/threaded_dispatch.cpp            | 17 +++++++++++++++++
 lib/libloong/threaded_inaccurate_dispatch.cpp | 17 +++++++++++++++++
 10 files changed, 91 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index d02a10e..be2fb92 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1021,7 +1021,7 @@ INSTRUCTION(LA64_BC_REVB_4H, la64_revb_4h)
 	NEXT_INSTR();
 }
 
-// LA64_BC_FAR_BRANCH: Direct branch with a target outside of the current segment
+// LA64_BC_FAR_BRANCH: End of a block with any instruction (eg. a branch out of the current segment)
 INSTRUCTION(LA64_BC_FAR_BRANCH, la64_far_branch)
 {
 	const la_instruction instr{DECODER().instr};
diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 82da4e3..2abd2e4 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -31,9 +31,10 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 			return true;
 		}
 
-		// System calls (exact match required)
-		if (instr == Opcode::SYSCALL) return true;
-		if (instr == Opcode::BREAK) return true;
+		// System calls and breakpoints (with any code)
+		const uint32_t op17 = instr & 0xFFFF8000;
+		if (op17 == Opcode::SYSCALL) return true;
+		if (op17 == Opcode::BREAK) return true;
 
 		return false;
 	}
@@ -49,7 +50,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		case InstrId::SYSCALL:
 			return LA64_BC_SYSCALL;
 		case InstrId::BREAK:
-			return LA64_BC_FUNCTION;
+			return LA64_BC_BREAK;
 		case InstrId::NOP:
 			return LA64_BC_NOP;
 
@@ -233,7 +234,15 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 			const address_t pc = exec_begin + (i * sizeof(la_instruction));
 			cache[i].instr = segment->optimize_bytecode(cache[i].bytecode, pc, instr);
 
-			if (is_diverging_instruction(instr)) {
+			bool diverging = is_diverging_instruction(instr) || cache[i].bytecode == LA64_BC_STOP;
+			if (!diverging && accumulated_bytes + 4 > UINT16_MAX) {
+				// Split straight-line code that doesn't fit in block_bytes
+				cache[i].bytecode = LA64_BC_FAR_BRANCH;
+				cache[i].instr = instr;
+				diverging = true;
+			}
+
+			if (diverging) {
 				// Diverging instruction: block_bytes = 0
 				cache[i].block_bytes = 0;
 				accumulated_bytes = 0;
diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index 9fab1cc..d15facc 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -16,7 +16,7 @@ namespace loongarch
 
 		// Calculate number of instructions in this block (LoongArch = 4 bytes per instruction)
 		// This includes the current (diverging) instruction: block instructions + 1
-		uint8_t instruction_count() const noexcept { return (block_bytes / 4) + 1; }
+		unsigned instruction_count() const noexcept { return (block_bytes / 4) + 1; }
 
 		// Bytecode accessors for threaded dispatch
 		uint8_t get_bytecode() const noexcept { return bytecode; }
diff --git a/lib/libloong/tailcall_bytecode_array.hpp b/lib/libloong/tailcall_bytecode_array.hpp
index 3716d3a..9fedfd2 100644
--- a/lib/libloong/tailcall_bytecode_array.hpp
+++ b/lib/libloong/tailcall_bytecode_array.hpp
@@ -111,6 +111,7 @@
 [LA64_BC_BLTU]      = la64_bltu,
 [LA64_BC_BGEU]      = la64_bgeu,
 [LA64_BC_FAR_BRANCH]= la64_far_branch,
+[LA64_BC_BREAK]     = la64_break,
 
 [LA64_BC_FUNCTION]  = execute_decoded_function,
 [LA64_BC_FUNCTION2] = execute_function_extended,
diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 15af969..cef5dfe 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -148,6 +148,25 @@ namespace loongarch
 		NEXT_BLOCK(4);
 	}
 
+	INSTRUCTION(LA64_BC_BREAK, la64_break)
+	{
+		// Make the current PC visible
+		cpu.registers().pc = pc;
+		// Make the instruction counter visible
+		counter.apply(MACHINE());
+		// Invoke system call
+		cpu.machine().system_call(0);
+		// Restore counters
+		counter.retrieve_counters(MACHINE());
+		// System calls can change PC
+		if (LA_UNLIKELY(pc != cpu.registers().pc))
+		{
+			pc = cpu.registers().pc;
+			OVERFLOW_CHECKED_JUMP();
+		}
+		NEXT_BLOCK(4);
+	}
+
 	INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 	{
 		VIEW_INSTR();
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index 0cfa43c..33d2ed4 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -132,6 +132,23 @@ namespace loongarch
 		NEXT_BLOCK_UNCHECKED(4);
 	}
 
+	INSTRUCTION(LA64_BC_BREAK, la64_break)
+	{
+		// Make the current PC visible
+		cpu.registers().pc = pc;
+		// Invoke system call
+		cpu.machine().system_call(0);
+		if (LA_UNLIKELY(cpu.machine().max_instructions() == 0))
+			return RETURN_VALUES();
+		// System calls can change PC
+		if (LA_UNLIKELY(pc != cpu.registers().pc))
+		{
+			pc = cpu.registers().pc;
+			UNCHECKED_JUMP();
+		}
+		NEXT_BLOCK_UNCHECKED(4);
+	}
+
 	INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 	{
 		VIEW_INSTR();
diff --git a/lib/libloong/threaded_bytecode_array.hpp b/lib/libloong/threaded_bytecode_array.hpp
index 8985198..6117986 100644
--- a/lib/libloong/threaded_bytecode_array.hpp
+++ b/lib/libloong/threaded_bytecode_array.hpp
@@ -112,6 +112,7 @@ static constexpr void *computed_opcode[] = {
 	[LA64_BC_BLTU]      = &&la64_bltu,
 	[LA64_BC_BGEU]      = &&la64_bgeu,
 	[LA64_BC_FAR_BRANCH]= &&la64_far_branch,
+	[LA64_BC_BREAK]     = &&la64_break,
 
 	[LA64_BC_FUNCTION]  = &&execute_decoded_function,
 	[LA64_BC_FUNCTION2] = &&execute_function_extended,
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index 11892ea..142d83b 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -119,7 +119,8 @@ namespace loongarch
 		LA64_BC_BGE,               // Branch if greater than or equal
 		LA64_BC_BLTU,              // Branch if less than unsigned
 		LA64_BC_BGEU,              // Branch if greater than or equal unsigned
-		LA64_BC_FAR_BRANCH,        // Direct branch with a target outside of the segment
+		LA64_BC_FAR_BRANCH,        // Ends a block by executing an instruction (eg. a branch out of the segment)
+		LA64_BC_BREAK,             // Breakpoint
 
 		// Generic handlers
 		LA64_BC_FUNCTION,          // Non-PC-modifying instruction (simple handler call)
@@ -245,6 +246,7 @@ namespace loongarch
 		case LA64_BC_BLTU: return "BLTU";
 		case LA64_BC_BGEU: return "BGEU";
 		case LA64_BC_FAR_BRANCH: return "FAR_BRANCH";
+		case LA64_BC_BREAK: return "BREAK";
 		case LA64_BC_FUNCTION: return "FUNCTION";
 		case LA64_BC_FUNCTION2: return "FUNCTION";
 		case LA64_BC_SYSCALL: return "SYSCALL";
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index e073e5f..cfd07cb 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -91,6 +91,23 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 	NEXT_BLOCK_UNCHECKED(4);
 }
 
+INSTRUCTION(LA64_BC_BREAK, la64_break)
+{
+	REGISTERS().pc = pc;
+	MACHINE().set_max_instructions(max_counter);
+	MACHINE().system_call(0);
+	// Restore counters
+	max_counter = MACHINE().max_instructions();
+
+	if (LA_UNLIKELY(max_counter == 0 || pc != REGISTERS().pc))
+	{
+		pc = REGISTERS().pc + 4;
+		goto check_jump;
+	}
+	// Syscall completed normally
+	NEXT_BLOCK_UNCHECKED(4);
+}
+
 INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 {
 	REGISTERS().pc = pc;
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index c7a7772..93c28c4 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -88,6 +88,23 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 	NEXT_BLOCK_UNCHECKED(4);
 }
 
+INSTRUCTION(LA64_BC_BREAK, la64_break)
+{
+	REGISTERS().pc = pc;
+	MACHINE().set_max_instructions(max_counter);
+	MACHINE().system_call(0);
+	// Restore counters
+	max_counter = MACHINE().max_instructions();
+
+	if (LA_UNLIKELY(max_counter == 0 || pc != REGISTERS().pc))
+	{
+		pc = REGISTERS().pc + 4;
+		goto check_jump;
+	}
+	// Syscall completed normally
+	NEXT_BLOCK_UNCHECKED(4);
+}
+
 INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 {
 	REGISTERS().pc = pc;
-- 
2.43.0


From f809677dc32019c9ac81383e94020694db1fceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 12/34] fix: accelerated string calls compare only up to the
 terminator and measure long strings

---
 lib/libloong/machine_accelerate.cpp | 50 ++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index e98425c..13f4856 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -47,6 +47,34 @@ static inline void patch(Machine& machine, const std::vector<std::string> symbol
 	}
 }
 
+// Length of a guest string, which must end inside guest memory unless maxlen is reached first
+static size_t guest_strnlen(const Machine& machine, address_t addr, size_t maxlen)
+{
+	if (maxlen == 0) return 0;
+	(void)machine.memory.template memarray<char>(addr, 1);
+	const size_t available = machine.memory.arena_size() - addr;
+	const size_t len = machine.memory.strlen(addr, std::min(maxlen, available));
+	if (len == available && len < maxlen) {
+		throw MachineException(PROTECTION_FAULT, "String is not terminated", addr);
+	}
+	return len;
+}
+
+static int guest_strncmp(const Machine& machine, address_t addr1, address_t addr2, size_t maxlen)
+{
+	// The strings are only read up to and including their first difference
+	const size_t len1 = guest_strnlen(machine, addr1, maxlen);
+	const size_t len2 = guest_strnlen(machine, addr2, std::min(maxlen, len1 + 1));
+	const size_t cmp_len = std::min(len1, len2);
+	const char* s1 = machine.memory.template memarray<char>(addr1, cmp_len);
+	const char* s2 = machine.memory.template memarray<char>(addr2, cmp_len);
+	const int result = std::memcmp(s1, s2, cmp_len);
+	if (result == 0) {
+		return (len1 < len2) ? -1 : (len1 > len2);
+	}
+	return result;
+}
+
 void Machine::setup_accelerated_syscalls()
 {
 	// Register accelerated syscalls here
@@ -132,33 +160,21 @@ void Machine::setup_accelerated_syscalls()
 	install_syscall_handler(SYS_native_strlen,
 	[] (Machine& machine) {
 		const address_t str_addr = machine.cpu.reg(REG_A0);
-		machine.set_result(machine.memory.strlen(str_addr));
+		machine.set_result(guest_strnlen(machine, str_addr, SIZE_MAX));
 	});
 
 	install_syscall_handler(SYS_native_strnlen,
 	[] (Machine& machine) {
 		const address_t str_addr = machine.cpu.reg(REG_A0);
 		const size_t maxlen      = machine.cpu.reg(REG_A1);
-		machine.set_result(machine.memory.strlen(str_addr, maxlen));
+		machine.set_result(guest_strnlen(machine, str_addr, maxlen));
 	});
 
 	install_syscall_handler(SYS_native_strcmp,
 	[] (Machine& machine) {
 		const address_t str1_addr = machine.cpu.reg(REG_A0);
 		const address_t str2_addr = machine.cpu.reg(REG_A1);
-		const size_t len1 = machine.memory.strlen(str1_addr);
-		const size_t len2 = machine.memory.strlen(str2_addr);
-		const size_t cmp_len = std::min(len1, len2);
-		const char* s1 = machine.memory.template memarray<char>(str1_addr, cmp_len + 1);
-		const char* s2 = machine.memory.template memarray<char>(str2_addr, cmp_len + 1);
-		int result = std::memcmp(s1, s2, cmp_len);
-		if (result == 0) {
-			if (len1 < len2) {
-				result = -1;
-			} else if (len1 > len2) {
-				result = 1;
-			}
-		}
+		const int result = guest_strncmp(machine, str1_addr, str2_addr, SIZE_MAX);
 
 		machine.set_result<int>(result);
 	});
@@ -168,9 +184,7 @@ void Machine::setup_accelerated_syscalls()
 		const address_t str1_addr = machine.cpu.reg(REG_A0);
 		const address_t str2_addr = machine.cpu.reg(REG_A1);
 		const size_t n            = machine.cpu.reg(REG_A2);
-		const char* s1 = machine.memory.template memarray<char>(str1_addr, n);
-		const char* s2 = machine.memory.template memarray<char>(str2_addr, n);
-		const int result = std::memcmp(s1, s2, n);
+		const int result = guest_strncmp(machine, str1_addr, str2_addr, n);
 
 		machine.set_result<int>(result);
 	});
-- 
2.43.0


From a230e3a930169d70579f5b3a24fd90581ade41e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 13/34] fix: native heap request sizes and 64-bit addresses

---
 lib/libloong/machine_accelerate.cpp | 6 +++++-
 lib/libloong/native/heap.hpp        | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index 13f4856..c14505e 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -225,7 +225,11 @@ void Machine::setup_accelerated_heap(address_t arena_base, size_t arena_size)
 	{
 		const auto [count, size] =
 			machine.template sysargs<address_t, address_t> ();
-		const size_t len = count * size;
+		size_t len = 0;
+		if (__builtin_mul_overflow(count, size, &len)) {
+			machine.set_result<address_t>(0);
+			return;
+		}
 		auto data = machine.arena().malloc(len);
 		HPRINT("SYSCALL calloc(%zu, %zu) = 0x%lX\n",
 			(size_t)count, (size_t)size, (long)data);
diff --git a/lib/libloong/native/heap.hpp b/lib/libloong/native/heap.hpp
index ba250b5..74770ae 100644
--- a/lib/libloong/native/heap.hpp
+++ b/lib/libloong/native/heap.hpp
@@ -15,7 +15,7 @@ struct Arena;
 
 struct ArenaChunk
 {
-	using PointerType = uint32_t;
+	using PointerType = address_t;
 
 	ArenaChunk() = default;
 	ArenaChunk(ArenaChunk* n, ArenaChunk* p, size_t s, bool f, PointerType d)
@@ -101,6 +101,8 @@ struct Arena
 		return (size + (ALIGNMENT-1)) & ~(ALIGNMENT-1);
 	}
 	static size_t fixup_size(size_t size) {
+		// Sizes that cannot be aligned can never be satisfied either
+		if (LA_UNLIKELY(size > SIZE_MAX - (ALIGNMENT-1))) return SIZE_MAX;
 		// The minimum allocation is 8 bytes
 		return std::max(ALIGNMENT, word_align(size));
 	}
-- 
2.43.0


From c49cdb56bd6208b9df530667ee79d3bf6e6db29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 14/34] fix: dispatch system calls by the full 64-bit number

---
 lib/libloong/la_instr_impl.hpp  | 11 ++++++++---
 lib/libloong/machine.hpp        |  2 +-
 lib/libloong/machine_inline.hpp |  2 +-
 lib/libloong/tr_api.cpp         |  2 +-
 lib/libloong/tr_compiler.cpp    |  4 ++--
 5 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 5d6e66f..6b781c1 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -673,9 +673,14 @@ struct InstrImpl {
 	// === System Instructions ===
 
 	static void SYSCALL(cpu_t& cpu, la_instruction instr) {
-		(void)instr;
-		const int syscall_nr = static_cast<uint32_t>(cpu.reg(REG_A7));
-		cpu.machine().system_call(syscall_nr);
+		// A non-zero code is an immediate system call, which returns to RA
+		const uint32_t code = instr.whole & 0x3FF;
+		if (code != 0) {
+			cpu.machine().system_call(code);
+			cpu.registers().pc = cpu.reg(REG_RA) - 4;
+			return;
+		}
+		cpu.machine().system_call(cpu.reg(REG_A7));
 	}
 
 	static void BREAK(cpu_t& cpu, la_instruction instr) {
diff --git a/lib/libloong/machine.hpp b/lib/libloong/machine.hpp
index 5ad2615..e5cde84 100644
--- a/lib/libloong/machine.hpp
+++ b/lib/libloong/machine.hpp
@@ -71,7 +71,7 @@ namespace loongarch
 		static void set_unknown_syscall_handler(unknown_syscall_t* handler);
 		static syscall_t** get_syscall_handlers();
 		static unknown_syscall_t* get_unknown_syscall_handler();
-		void system_call(unsigned sysnum);
+		void system_call(address_t sysnum);
 		void unchecked_system_call(unsigned sysnum);
 		template <typename T = address_t>
 		void set_result(const T& value);
diff --git a/lib/libloong/machine_inline.hpp b/lib/libloong/machine_inline.hpp
index a09c5d3..a7c99a3 100644
--- a/lib/libloong/machine_inline.hpp
+++ b/lib/libloong/machine_inline.hpp
@@ -9,7 +9,7 @@ namespace loongarch
 		return cpu.simulate(cpu.pc(), counter, max_instructions);
 	}
 
-	inline void Machine::system_call(unsigned syscall_number)
+	inline void Machine::system_call(address_t syscall_number)
 	{
 		if (syscall_number < m_syscall_handlers.size()) {
 			auto* handler = m_syscall_handlers[syscall_number];
diff --git a/lib/libloong/tr_api.cpp b/lib/libloong/tr_api.cpp
index c9f6134..f4ebccc 100644
--- a/lib/libloong/tr_api.cpp
+++ b/lib/libloong/tr_api.cpp
@@ -142,7 +142,7 @@ static struct CallbackTable {
 	syscall_t* syscalls;
 	void (*unknown_syscall)(CPU*, addr_t);
 	handler_t* handlers;
-	int  (*syscall)(CPU*, unsigned, uint64_t, addr_t);
+	int  (*syscall)(CPU*, addr_t, uint64_t, addr_t);
 	ReturnValues (*exception) (CPU*, addr_t, addr_t, int);
 	void (*trace) (CPU*, const char*, addr_t, uint32_t);
 	void (*log) (CPU*, addr_t, const char*);
diff --git a/lib/libloong/tr_compiler.cpp b/lib/libloong/tr_compiler.cpp
index 62c6433..4463ecc 100644
--- a/lib/libloong/tr_compiler.cpp
+++ b/lib/libloong/tr_compiler.cpp
@@ -160,7 +160,7 @@ namespace loongarch
 			Machine::syscall_t** syscalls;
 			Machine::unknown_syscall_t* unknown_syscall;
 			DecoderData::handler_t* handlers;
-			int  (*syscall)(CPU&, unsigned, uint64_t, address_t);
+			int  (*syscall)(CPU&, address_t, uint64_t, address_t);
 			ReturnValues (*exception) (CPU&, address_t, address_t, int);
 			void (*trace) (CPU&, const char*, address_t, uint32_t);
 			void (*log) (CPU&, address_t, const char*);
@@ -177,7 +177,7 @@ namespace loongarch
 
 		callback_table.syscalls = Machine::get_syscall_handlers();
 		callback_table.unknown_syscall = Machine::get_unknown_syscall_handler();
-		callback_table.syscall = [](CPU& cpu, unsigned sysnum, uint64_t max_ic, address_t pc) -> int {
+		callback_table.syscall = [](CPU& cpu, address_t sysnum, uint64_t max_ic, address_t pc) -> int {
 			try {
 				cpu.registers().pc = pc;
 				cpu.machine().set_max_instructions(max_ic);
-- 
2.43.0


From e0652ceb16a370a8368cf90d1bb88fb24cc128da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 15/34] fix: guest call arguments beyond eight, 32-bit
 arguments and preemption

---
 lib/libloong/machine_vmcall.hpp | 110 +++++++++++++++++++++++---------
 1 file changed, 81 insertions(+), 29 deletions(-)

diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index 68185a1..eac9485 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -28,20 +28,43 @@ namespace loongarch
 		return stack_push(sp, &value, sizeof(T));
 	}
 
-	// Setup call arguments according to LoongArch calling convention
+	// Widen an integer to a full register: values narrower than 32 bits are
+	// extended according to their type, and 32-bit values are sign-extended
+	template <typename T> constexpr
+	inline address_t call_register(T value)
+	{
+		if constexpr (sizeof(T) <= 4)
+			return static_cast<address_t>(static_cast<int64_t>(static_cast<int32_t>(value)));
+		else
+			return static_cast<address_t>(value);
+	}
+
+	// Setup call arguments according to LoongArch calling convention,
+	// using the stack below the given stack pointer
 	template <typename... Args> constexpr
-	inline void setup_call(Machine& machine, address_t exit_addr, Args&&... args)
-	{		auto& cpu = machine.cpu;
+	inline void setup_call_at(Machine& machine, address_t sp, address_t exit_addr, Args&&... args)
+	{
+		auto& cpu = machine.cpu;
 
 		// Set return address to exit function
 		cpu.reg(REG_RA) = exit_addr;
 
-		// Reset stack pointer to initial position
-		address_t sp = machine.memory.stack_address();
+		// Everything pushed below stays aligned
+		sp &= ~address_t(0xF);
 
 		// Initialize argument registers
-		int iarg = REG_A0; // Integer argument registers: A0-A7
-		int farg = 0;      // Floating-point argument registers: FA0-FA7
+		int iarg = 0; // Integer argument registers: A0-A7
+		int farg = 0; // Floating-point argument registers: FA0-FA7
+		// Arguments that do not fit in registers are passed on the stack
+		constexpr int MAX_REGS = 8;
+		address_t stack_args[sizeof...(Args) + 1] = {};
+		size_t stack_arg_count = 0;
+		auto push_word = [&] (address_t value) {
+			if (iarg < MAX_REGS)
+				cpu.reg(REG_A0 + iarg++) = value;
+			else
+				stack_args[stack_arg_count++] = value;
+		};
 
 		// Process each argument
 		// Note: We avoid complex operations in the fold expression to keep it constexpr-friendly
@@ -50,42 +73,48 @@ namespace loongarch
 
 			if constexpr (std::is_same_v<T, std::string>) {
 				// std::string: Push zero-terminated string onto stack, pass pointer as integer
-				cpu.reg(iarg++) = machine.stack_push(sp, args.c_str(), args.length() + 1);
+				push_word(machine.stack_push(sp, args.c_str(), args.length() + 1));
 			}
 			else if constexpr (std::is_same_v<T, const char*> || std::is_same_v<T, char*>) {
 				// C-string: Push zero-terminated string onto stack, pass pointer as integer
-				cpu.reg(iarg++) = machine.stack_push(sp, args, std::strlen(args) + 1);
+				push_word(machine.stack_push(sp, args, std::strlen(args) + 1));
 			}
 			else if constexpr (std::is_same_v<T, GuestStdString>) {
 				// GuestStdString: Adjust SSO pointer and push onto stack
 				args.move(sp - sizeof(T)); // SSO-adjustment
-				cpu.reg(iarg++) = machine.stack_push(sp, &args, sizeof(T));
+				push_word(machine.stack_push(sp, &args, sizeof(T)));
 			}
 			else if constexpr (is_scoped_guest_object<T>::value) {
 				// ScopedArenaObject: Pass the guest address directly
-				cpu.reg(iarg++) = args.address();
+				push_word(args.address());
 			}
 			else if constexpr (std::is_integral_v<T>) {
 				// Integer types go to integer registers (A0-A7)
-				cpu.reg(iarg++) = static_cast<address_t>(args);
+				push_word(call_register(args));
 			}
 			else if constexpr (std::is_floating_point_v<T>) {
 				// Floating-point types go to FP registers (FA0-FA7)
-				if constexpr (sizeof(T) == 4) {
-					cpu.registers().getfl32(farg++) = static_cast<float>(args);
-				} else if constexpr (sizeof(T) == 8) {
-					cpu.registers().getfl64(farg++) = static_cast<double>(args);
+				// and then to integer registers when those are used up
+				if (farg < MAX_REGS) {
+					if constexpr (sizeof(T) == 4) {
+						cpu.registers().getfl32(REG_FA0 + farg++) = static_cast<float>(args);
+					} else if constexpr (sizeof(T) == 8) {
+						cpu.registers().getfl64(REG_FA0 + farg++) = static_cast<double>(args);
+					}
+				} else {
+					address_t bits = 0;
+					std::memcpy(&bits, &args, sizeof(T));
+					push_word(bits);
 				}
 			}
 			else if constexpr (std::is_enum_v<T>) {
 				// Enums are treated as their underlying integer type
 				using UnderlyingType = std::underlying_type_t<T>;
-				cpu.reg(iarg++) = static_cast<address_t>(static_cast<UnderlyingType>(args));
+				push_word(call_register(static_cast<UnderlyingType>(args)));
 			}
 			else if constexpr (std::is_standard_layout_v<T> && std::is_trivially_copyable_v<T>) {
 				// Standard layout structs: Push onto stack, pass pointer as integer
-				const address_t struct_addr = machine.stack_push(sp, args);
-				cpu.reg(iarg++) = struct_addr;
+				push_word(machine.stack_push(sp, args));
 			}
 			else {
 				static_assert(sizeof(T) == 0, "Unsupported argument type for vmcall. Use integers, floats, enums, strings, or standard-layout structs.");
@@ -94,9 +123,19 @@ namespace loongarch
 
 		// Align stack pointer to 16-byte boundary
 		sp &= ~address_t(0xF);
+		if (stack_arg_count > 0)
+			machine.stack_push(sp, stack_args, stack_arg_count * sizeof(address_t));
 		cpu.reg(REG_SP) = sp;
 	}
 
+	// Setup call arguments, starting from the top of the stack
+	template <typename... Args> constexpr
+	inline void setup_call(Machine& machine, address_t exit_addr, Args&&... args)
+	{
+		setup_call_at(machine, machine.memory.stack_address(), exit_addr, std::forward<Args>(args)...);
+	}
+
+
 	// vmcall: Call a guest function at a specific address
 	template <typename Ret, uint64_t MAX_INSTRUCTIONS, typename... Args>
 	inline Ret Machine::vmcall(address_t func_addr, Args&&... args)
@@ -187,15 +226,25 @@ namespace loongarch
 			saved_regs = cpu.registers();
 		}
 
-		// Allocate 16 bytes on stack for execution context
-		cpu.reg(REG_SP) -= 16;
-
-		// Setup the call
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
-		cpu.registers().pc = func_addr;
+		// The interrupted run continues with the same instruction limit
+		const uint64_t saved_max = this->max_instructions();
 
-		// Execute with instruction limit
-		this->simulate(max_instr, 0);
+		// Setup the call below the current stack pointer,
+		// with 16 bytes allocated for execution context
+		cpu.reg(REG_SP) -= 16;
+		try {
+			setup_call_at(*this, cpu.reg(REG_SP), exit_addr, std::forward<Args>(args)...);
+			cpu.registers().pc = func_addr;
+
+			// Execute with instruction limit
+			this->simulate(max_instr, 0);
+		} catch (...) {
+			if constexpr (StoreRegs) {
+				cpu.registers() = saved_regs;
+			}
+			this->set_max_instructions(saved_max);
+			throw;
+		}
 
 		// Restore registers if needed
 		if constexpr (StoreRegs) {
@@ -205,11 +254,14 @@ namespace loongarch
 			cpu.reg(REG_A0) = retval;
 		}
 
-		if constexpr (Throw) {
-			if (this->instruction_limit_reached()) {
+		if (this->instruction_limit_reached()) {
+			if constexpr (Throw) {
+				this->set_max_instructions(saved_max);
 				throw MachineException(MACHINE_TIMEOUT,
 					"preempt: Instruction limit reached", func_addr);
 			}
+		} else {
+			this->set_max_instructions(saved_max);
 		}
 
 		return cpu.reg(REG_A0);
-- 
2.43.0


From d9885794f9449398b99dc504f432c21111a064e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 16/34] fix: results of narrow unsigned, enum and struct type

---
 lib/libloong/machine_inline.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/machine_inline.hpp b/lib/libloong/machine_inline.hpp
index a7c99a3..cab1772 100644
--- a/lib/libloong/machine_inline.hpp
+++ b/lib/libloong/machine_inline.hpp
@@ -40,10 +40,12 @@ namespace loongarch
 	template <typename T>
 	inline void Machine::set_result(const T& value)
 	{
-		if constexpr (std::is_integral_v<remove_cvref_t<T>>) {
-			if constexpr (sizeof(T) < sizeof(address_t) && !std::is_same_v<T, bool>)
-				// Sign-extend all arguments smaller than the word size
-				cpu.reg(REG_A0) = static_cast<address_t>(static_cast<std::make_signed_t<T>>(value));
+		if constexpr (std::is_enum_v<remove_cvref_t<T>>) {
+			set_result(static_cast<std::underlying_type_t<remove_cvref_t<T>>>(value));
+		} else if constexpr (std::is_integral_v<remove_cvref_t<T>>) {
+			if constexpr (sizeof(T) <= sizeof(int32_t))
+				// Values are widened to 32 bits according to their type, and then sign-extended
+				cpu.reg(REG_A0) = static_cast<address_t>(static_cast<int64_t>(static_cast<int32_t>(value)));
 			else
 				cpu.reg(REG_A0) = static_cast<address_t>(value);
 		} else if constexpr (std::is_floating_point_v<remove_cvref_t<T>>) {
@@ -56,6 +58,14 @@ namespace loongarch
 			}
 		} else {
 			static_assert(sizeof(T) <= 2 * sizeof(address_t), "Result type too large");
+			// Small structures are returned in A0 and A1
+			if constexpr (std::is_class_v<T> && std::is_trivially_copyable_v<T>) {
+				address_t words[2] = {};
+				std::memcpy(words, &value, sizeof(T));
+				cpu.reg(REG_A0) = words[0];
+				if constexpr (sizeof(T) > sizeof(address_t))
+					cpu.reg(REG_A1) = words[1];
+			}
 		}
 	}
 
-- 
2.43.0


From f15882acc0592c0bd49fce7e72ed66f0d0875be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 17/34] fix: initial stack pointer alignment

---
 lib/libloong/machine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 477e3d5..d9b8cf2 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -118,6 +118,11 @@ namespace loongarch
 		auxv.push_back({AT_PHDR, memory.elf_phdr_addr()});
 		auxv.push_back({AT_NULL, 0});
 
+		// The stack pointer must end up 16-byte aligned below the argument
+		// count, the terminated pointer lists and the auxiliary vector
+		const size_t words = 1 + (arg_ptrs.size() + 1) + (env_ptrs.size() + 1) + auxv.size() * 2;
+		sp -= (words & 1) * sizeof(address_t);
+
 		// Push auxiliary vector (already in reverse order)
 		sp -= auxv.size() * 2 * sizeof(address_t);
 		memory.copy_to_guest(sp, auxv.data(), auxv.size() * 2 * sizeof(address_t));
-- 
2.43.0


From b607ac75c7c0ec5e98ebf2874de32f488e39354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:29 +0000
Subject: [PATCH 18/34] fix: preempt restores the result register when it times
 out

---
 lib/libloong/machine_vmcall.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index eac9485..3740069 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -256,6 +256,9 @@ namespace loongarch
 
 		if (this->instruction_limit_reached()) {
 			if constexpr (Throw) {
+				if constexpr (StoreRegs) {
+					cpu.registers() = saved_regs;
+				}
 				this->set_max_instructions(saved_max);
 				throw MachineException(MACHINE_TIMEOUT,
 					"preempt: Instruction limit reached", func_addr);
-- 
2.43.0


From 22eb5083064583c20ed10d219d94d36ca0e7ecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 19/34] fix: bounds of ELF section, symbol and string tables

---
 lib/libloong/elf_loader.cpp |  6 +++---
 lib/libloong/memory.cpp     | 10 ++++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 5fa7e69..fde022b 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -31,7 +31,7 @@ static TextSegmentBounds find_text_section(std::string_view binary, const Elf::H
 	const auto* shstrtab = reinterpret_cast<const Elf::SectionHeader*>(
 		binary.data() + ehdr->shoff + ehdr->shstrndx * sizeof(Elf::SectionHeader));
 
-	if (shstrtab->offset + shstrtab->size >= binary.size()) {
+	if (shstrtab->offset >= binary.size() || shstrtab->size >= binary.size() - shstrtab->offset) {
 		return bounds;
 	}
 
@@ -233,9 +233,9 @@ void Memory::binary_loader(const MachineOptions& options)
 					// Check if .text section is within this segment
 					const address_t seg_start = phdr->vaddr;
 					const address_t seg_end = phdr->vaddr + phdr->filesz;
-					const address_t text_end = text_bounds.start + text_bounds.size;
 
-					if (text_bounds.start >= seg_start && text_end <= seg_end) {
+					if (text_bounds.start >= seg_start && text_bounds.start <= seg_end &&
+						text_bounds.size <= seg_end - text_bounds.start) {
 						exec_vaddr = text_bounds.start;
 						exec_size  = text_bounds.size & ~size_t(3); // Align to instruction boundary
 						file_offset = phdr->offset + (text_bounds.start - seg_start);
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 3085a4d..f5c0305 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -193,8 +193,8 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
                                     const MachineOptions& options)
 {
 	// Validate section offsets and sizes
-	if (symtab->offset + symtab->size > m_binary.size() ||
-	    strtab->offset + strtab->size > m_binary.size()) {
+	if (symtab->offset > m_binary.size() || symtab->size > m_binary.size() - symtab->offset ||
+	    strtab->offset > m_binary.size() || strtab->size > m_binary.size() - strtab->offset) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Warning: Invalid symbol or string table section\n");
 		}
@@ -213,7 +213,9 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
 		if ((type == Elf::STT_FUNC || type == Elf::STT_OBJECT) && sym.value != 0) {
 			if (sym.name + 1 < strtab->size && sym.name + 1 > sym.name) {
 				const char* name = string_table + sym.name;
-				if (name[0] != '\0') {
+				// The name must end within the string table
+				const size_t max_len = strtab->size - sym.name;
+				if (name[0] != '\0' && ::strnlen(name, max_len) < max_len) {
 					m_symbols.push_back({static_cast<address_t>(sym.value), static_cast<address_t>(sym.size), name});
 
 					if (false && options.verbose_loader) {
@@ -417,7 +419,7 @@ const Symbol* Memory::lookup_symbol(address_t addr) const
 	const Symbol* best_match = nullptr;
 	for (const auto& sym : m_symbols) {
 		// Check if address is within symbol range
-		if (addr >= sym.address && addr < sym.address + sym.size) {
+		if (addr >= sym.address && addr - sym.address < sym.size) {
 			return &sym;
 		}
 		// Also track the closest symbol before this address (for functions with unknown size)
-- 
2.43.0


From 343860bb5c7b96644511ae127b731949e0ba9f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:52 +0000
Subject: [PATCH 20/34] fix: memory layout and mmap regions must fit the arena

---
 lib/libloong/elf_loader.cpp | 17 +++++++++++------
 lib/libloong/memory.cpp     | 28 ++++++++++++++++++++++++----
 lib/libloong/memory.hpp     |  1 +
 3 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index fde022b..08d542c 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -129,7 +129,7 @@ void Memory::binary_loader(const MachineOptions& options)
 		if (phdr->type == Elf::PT_LOAD) {
 			address_t start = phdr->vaddr;
 			address_t end = phdr->vaddr + phdr->memsz;
-			if (end > options.memory_max || end < start) {
+			if (end > options.memory_max || end < start || phdr->filesz > phdr->memsz) {
 				throw MachineException(INVALID_PROGRAM, "ELF segment invalid", phdr->vaddr);
 			}
 			min_addr = std::min(min_addr, start);
@@ -163,8 +163,14 @@ void Memory::binary_loader(const MachineOptions& options)
 	// m_stack_address is the TOP of the stack (highest address)
 	const address_t stack_base = this->mmap_allocate(options.stack_size);
 	this->m_stack_address = stack_base + options.stack_size;
-
-	if (this->m_heap_address >= options.memory_max) {
+	// Everything above is available to mmap
+	this->m_mmap_start = this->m_mmap_address;
+
+	const bool use_custom_arena = options.custom_arena_pointer != nullptr &&
+		options.custom_arena_size >= options.memory_max;
+	const address_t arena_size = use_custom_arena ?
+		options.custom_arena_size - std::min(options.custom_arena_size, size_t(LA_OVER_ALLOCATE_SIZE)) : options.memory_max;
+	if (this->m_heap_address >= options.memory_max || this->m_mmap_address > arena_size) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Error: Not enough memory for stack and brk:\n");
 			fprintf(stderr, "  heap_begin: 0x%lx\n", (unsigned long)this->m_heap_address);
@@ -175,8 +181,7 @@ void Memory::binary_loader(const MachineOptions& options)
 			static_cast<uint64_t>(options.memory_max));
 	}
 
-	if (options.custom_arena_pointer != nullptr &&
-		options.custom_arena_size >= options.memory_max) {
+	if (use_custom_arena) {
 		this->use_custom_arena(options.custom_arena_pointer, options.custom_arena_size);
 	} else {
 		this->allocate_arena(options.memory_max);
@@ -249,7 +254,7 @@ void Memory::binary_loader(const MachineOptions& options)
 
 				create_execute_segment(options,
 					(const void*)(m_binary.data() + file_offset),
-					exec_vaddr, exec_size, true, false);
+					exec_vaddr, exec_size, m_main_exec_segment == nullptr, false);
 			}
 		}
 	}
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index f5c0305..0a7f029 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -21,7 +21,13 @@ Memory::Memory(Machine& machine,
 	  m_main_exec_segment(nullptr)
 {
 	if (!binary.empty()) {
-		binary_loader(options);
+		try {
+			binary_loader(options);
+		} catch (...) {
+			// Release the arena, unless it belongs to the caller
+			if (m_arena != options.custom_arena_pointer) free_arena();
+			throw;
+		}
 	}
 }
 
@@ -286,17 +292,31 @@ std::string_view Memory::memview(address_t addr, size_t len) const
 
 address_t Memory::mmap_allocate(size_t size)
 {
-	size = (size + 4095) & ~size_t(4095); // Align to page size
+	const size_t aligned = (size + 4095) & ~size_t(4095); // Align to page size
 	const address_t result = this->m_mmap_address;
-	this->m_mmap_address += size;
+	// The arena may not be allocated yet, in which case the loader verifies the total
+	const address_t limit = this->m_arena ? this->m_arena_size : ~address_t(0);
+	if (aligned < size || result > limit || aligned > limit - result) {
+		throw MachineException(OUT_OF_MEMORY, "Not enough memory for mmap", size);
+	}
+	this->m_mmap_address += aligned;
 	return result;
 }
 
 void Memory::mmap_deallocate(address_t addr, size_t size)
 {
 	// Allow relaxation of mmap area by moving m_mmap_address back
-	if (addr + size == this->m_mmap_address) {
+	const size_t aligned = (size + 4095) & ~size_t(4095);
+	if (aligned < size || addr < this->m_mmap_start || (addr & 4095) != 0 ||
+		addr > this->m_mmap_address) {
+		return;
+	}
+	if (aligned == this->m_mmap_address - addr) {
 		this->m_mmap_address = addr;
+		// The next allocation starts out zeroed again
+		if (addr >= this->m_data_start && addr + aligned <= this->m_arena_size) {
+			std::memset(&m_arena[addr], 0, aligned);
+		}
 	}
 }
 
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 79185c1..9dc694f 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -122,6 +122,7 @@ namespace loongarch
 		address_t m_heap_address = 0;
 		address_t m_brk_address = 0;
 		address_t m_mmap_address = 0;
+		address_t m_mmap_start = 0; // Lowest address available to mmap
 
 		// ELF header information for auxv
 		address_t m_elf_phdr_addr = 0;
-- 
2.43.0


From 01cde90d5dcf58cc62d70c98efef984da720fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:52 +0000
Subject: [PATCH 21/34] fix: mmap and clock_gettime report failures to the
 guest

---
 lib/libloong/linux/syscalls.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 1780252..5ebdccb 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -13,6 +13,7 @@ namespace loongarch
 	static constexpr int64_t LA_ENOENT = 2;
 	static constexpr int64_t LA_EBADF = 9;
 	static constexpr int64_t LA_EINVAL = 22;
+	static constexpr int64_t LA_ENOMEM = 12;
 	static constexpr int64_t LA_EAGAIN = 11;
 	static constexpr int64_t LA_ENOTTY = 25;
 
@@ -239,7 +240,10 @@ namespace loongarch
 			machine.template sysargs<int, address_t>();
 		if (tp != 0) {
 			struct timespec ts;
-			clock_gettime(clockid, &ts);
+			if (clock_gettime(clockid, &ts) != 0) {
+				machine.set_result(-LA_EINVAL);
+				return;
+			}
 			machine.memory.copy_to_guest(tp, &ts, sizeof(ts));
 		}
 		machine.set_result(0);
@@ -593,15 +597,21 @@ namespace loongarch
 			machine.template sysargs<address_t, size_t, int, int, int, off_t>();
 
 		// Simple implementation: allocate memory from our heap
-		if (addr == 0) {
-			// Anonymous mapping - allocate new memory
-			auto new_addr = machine.memory.mmap_allocate(length);
-			machine.set_result(new_addr);
-		} else if ((flags & 0x10) == 0x0) {
-			// no fixed flag - force into new allocation
-			auto new_addr = machine.memory.mmap_allocate(length);
-			machine.set_result(new_addr);
-		} else if (addr < machine.memory.mmap_address()) {
+		if (length == 0) {
+			machine.set_result(-LA_EINVAL);
+		} else if (addr == 0 || (flags & 0x10) == 0x0) {
+			// Anonymous mapping, or no fixed flag - allocate new memory
+			try {
+				auto new_addr = machine.memory.mmap_allocate(length);
+				machine.set_result(new_addr);
+			} catch (const MachineException& e) {
+				if (e.type() != OUT_OF_MEMORY) throw;
+				machine.set_result(-LA_ENOMEM);
+			}
+		} else if ((addr & 4095) != 0) {
+			machine.set_result(-LA_EINVAL);
+		} else if (addr < machine.memory.mmap_address() &&
+			length <= machine.memory.mmap_address() - addr) {
 			// It's within the mmap region - allow
 			machine.set_result(addr);
 		} else {
-- 
2.43.0


From fee3af45c44e588346701f7827bb02c1da32c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:52 +0000
Subject: [PATCH 22/34] fix: handler table may be extended while other threads
 execute

---
 lib/libloong/decoder_cache.cpp | 8 ++++++++
 lib/libloong/decoder_cache.hpp | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 2abd2e4..9d75e03 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -273,6 +273,11 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 
 	uint16_t DecoderData::compute_handler_for(handler_t handler)
 	{
+		// Other threads may be executing using the handlers, hence
+		// the storage must never be reallocated
+		std::lock_guard<std::mutex> lock(m_handlers_mutex);
+		m_handlers.reserve(MAX_HANDLERS);
+
 		// Search for existing handler
 		for (size_t i = 0; i < m_handlers.size(); ++i) {
 			if (m_handlers[i] == handler) {
@@ -281,6 +286,9 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		}
 
 		// Add new handler
+		if (m_handlers.size() >= MAX_HANDLERS) {
+			throw std::runtime_error("DecoderCache: Too many instruction handlers");
+		}
 		m_handlers.push_back(handler);
 		return static_cast<uint16_t>(m_handlers.size() - 1);
 	}
diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index d15facc..046b8b3 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "common.hpp"
+#include <mutex>
 #include <vector>
 
 namespace loongarch
@@ -35,7 +36,9 @@ namespace loongarch
 		}
 
 	private:
+		static constexpr size_t MAX_HANDLERS = 512; // LA64_BC_FUNCTION and LA64_BC_FUNCTION2
 		static inline std::vector<handler_t> m_handlers;
+		static inline std::mutex m_handlers_mutex;
 	};
 	static_assert(sizeof(DecoderData) == 8, "DecoderData size incorrect");
 
-- 
2.43.0


From 279acf6f43ba9df47e72ca892f2969e3561eb56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:52 +0000
Subject: [PATCH 23/34] fix: share decoded code only between identical,
 unpatched segments, and evict it

---
 lib/libloong/decoded_exec_segment.cpp | 22 ++++++++
 lib/libloong/decoded_exec_segment.hpp | 16 ++++++
 lib/libloong/machine_accelerate.cpp   |  2 +-
 lib/libloong/memory.cpp               | 76 +++++++++++++++------------
 lib/libloong/memory.hpp               |  2 +
 lib/libloong/shared_exec_segment.hpp  |  6 ++-
 6 files changed, 86 insertions(+), 38 deletions(-)

diff --git a/lib/libloong/decoded_exec_segment.cpp b/lib/libloong/decoded_exec_segment.cpp
index eef3a78..b015038 100644
--- a/lib/libloong/decoded_exec_segment.cpp
+++ b/lib/libloong/decoded_exec_segment.cpp
@@ -1,5 +1,6 @@
 #include "decoded_exec_segment.hpp"
 #include "machine.hpp"
+#include <algorithm>
 
 namespace loongarch
 {
@@ -33,6 +34,27 @@ namespace loongarch
 	}
 #endif
 
+	std::shared_ptr<DecodedExecuteSegment> DecodedExecuteSegment::create_private_copy(const std::shared_ptr<DecodedExecuteSegment>& segment)
+	{
+		auto copy = std::make_shared<DecodedExecuteSegment>(segment->m_exec_begin, segment->m_exec_end);
+		copy->m_stale = segment->m_stale;
+		copy->m_execute_only = segment->m_execute_only;
+		copy->m_crc32c_hash = segment->m_crc32c_hash;
+		copy->m_copied_from = segment;
+		const auto& cache = segment->m_decoder_cache;
+		if (cache.cache) {
+			// Including the final (invalid) entry
+			copy->m_decoder_cache.cache = new DecoderData[cache.size + 1];
+			copy->m_decoder_cache.size = cache.size;
+			std::copy(cache.cache, cache.cache + cache.size + 1, copy->m_decoder_cache.cache);
+		}
+#ifdef LA_BINARY_TRANSLATION
+		copy->m_is_libtcc = segment->m_is_libtcc;
+		copy->m_mappings_base_address = segment->m_mappings_base_address;
+#endif
+		return copy;
+	}
+
 	DecodedExecuteSegment::~DecodedExecuteSegment()
 	{
 #ifdef LA_BINARY_TRANSLATION
diff --git a/lib/libloong/decoded_exec_segment.hpp b/lib/libloong/decoded_exec_segment.hpp
index abb413f..7b4727d 100644
--- a/lib/libloong/decoded_exec_segment.hpp
+++ b/lib/libloong/decoded_exec_segment.hpp
@@ -2,6 +2,8 @@
 #include "common.hpp"
 #include "decoder_cache.hpp"
 #include "tr_types.hpp"
+#include <cstring>
+#include <memory>
 #include <vector>
 #include <mutex>
 #include <condition_variable>
@@ -18,6 +20,17 @@ namespace loongarch
 		uint32_t crc32c_hash() const noexcept { return m_crc32c_hash; }
 		void set_crc32c_hash(uint32_t hash) noexcept { m_crc32c_hash = hash; }
 
+		// The code a shared segment was built from. The hash alone is not
+		// enough to tell two segments apart.
+		bool is_shared() const noexcept { return !m_shared_code.empty(); }
+		void set_shared_code(const void* data, size_t len) { m_shared_code.assign((const uint8_t*)data, (const uint8_t*)data + len); }
+		bool is_shared_code(const void* data, size_t len) const noexcept {
+			return m_shared_code.size() == len && std::memcmp(m_shared_code.data(), data, len) == 0;
+		}
+
+		// Create a copy that can be modified without affecting other machines
+		static std::shared_ptr<DecodedExecuteSegment> create_private_copy(const std::shared_ptr<DecodedExecuteSegment>& segment);
+
 		bool is_within(address_t addr, size_t len = 4) const noexcept {
 			address_t addr_end;
 #ifdef _MSC_VER
@@ -97,6 +110,9 @@ namespace loongarch
 		bool m_stale = false;
 		bool m_execute_only = false;
 		uint32_t m_crc32c_hash = 0;
+		std::vector<uint8_t> m_shared_code;
+		// Private copies may use the translated code of the original
+		std::shared_ptr<DecodedExecuteSegment> m_copied_from;
 #ifdef LA_BINARY_TRANSLATION
 		bool m_is_libtcc = false;
 		const char* m_mappings_base_address = nullptr;
diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index c14505e..2ad78bd 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -41,7 +41,7 @@ static inline void patch(Machine& machine, const std::vector<std::string> symbol
 			entry.block_bytes = 0; // Diverges here
 			entry.instr = syscall_number;
 			// Install into decoder cache
-			auto& exec_seg = *machine.memory.exec_segment_for(addr);
+			auto& exec_seg = *machine.memory.private_exec_segment_for(addr);
 			exec_seg.set(addr, entry);
 		}
 	}
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 0a7f029..23c3c5a 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -340,27 +340,23 @@ DecodedExecuteSegment& Memory::create_execute_segment(
 		SegmentKey key = SegmentKey::from(addr, crc32c, m_arena_size);
 
 		// Try to get existing shared segment
-		auto& shared_cache = get_shared_execute_segments();
-		auto& entry = shared_cache.get_segment(key);
-
-		// Lock the segment entry and check if it exists
-		std::shared_ptr<DecodedExecuteSegment> existing = entry.get();
-
-		if (existing) {
+		auto& entry = get_shared_execute_segments().get_segment(key);
+
+		std::lock_guard<std::mutex> lock(entry.mutex);
+		if (!entry.segment) {
+			// No existing segment, share the one we create
+			segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
+			populate_decoder_cache(m_machine, options, segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
+			segment->set_shared_code(data, len);
+			entry.unlocked_set(segment);
+		} else if (entry.segment->is_shared_code(data, len)) {
 			// Reuse existing shared segment
-			segment = existing;
-		} else {
-			// No existing segment, use the one we just created
-			std::lock_guard<std::mutex> lock(entry.mutex);
-			// Double-check in case another thread created it
-			if (!entry.segment) {
-				entry.segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
-				populate_decoder_cache(m_machine, options, entry.segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
-			}
 			segment = entry.segment;
 		}
-	} else {
-		// Not using shared segments, create a new one
+	}
+	if (!segment) {
+		// Not using shared segments, or the shared one was built
+		// from other code with the same hash: create a new one
 		segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
 		populate_decoder_cache(m_machine, options, segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
 	}
@@ -389,27 +385,37 @@ void Memory::evict_execute_segments()
 {
 	machine().cpu.set_execute_segment(*CPU::empty_execute_segment());
 
-	// If using shared segments, notify the cache before releasing our references
-	if (machine().has_options() && machine().options().use_shared_execute_segments) {
-		auto& shared_cache = get_shared_execute_segments();
-
-		// Remove main segment if unique
-		if (m_main_exec_segment) {
-			SegmentKey key = SegmentKey::from(*m_main_exec_segment, m_arena_size);
-			shared_cache.remove_if_unique(key);
-		}
+	// Release our references to the segments, and then remove
+	// each shared one from the cache if it's no longer in use
+	auto segments = std::move(m_exec);
+	if (m_main_exec_segment) segments.push_back(std::move(m_main_exec_segment));
+	m_exec.clear();
+	m_main_exec_segment.reset();
 
-		// Remove other segments if unique
-		for (auto& seg : m_exec) {
-			if (seg) {
-				SegmentKey key = SegmentKey::from(*seg, m_arena_size);
-				shared_cache.remove_if_unique(key);
-			}
+	for (auto& seg : segments) {
+		if (seg && seg->is_shared()) {
+			const SegmentKey key = SegmentKey::from(*seg, m_arena_size);
+			seg.reset();
+			get_shared_execute_segments().remove_if_unique(key);
 		}
 	}
+}
 
-	m_exec.clear();
-	m_main_exec_segment.reset();
+std::shared_ptr<DecodedExecuteSegment> Memory::private_exec_segment_for(address_t pc)
+{
+	auto segment = exec_segment_for(pc);
+	if (!segment->is_shared()) return segment;
+
+	// Replace the shared segment with a private copy
+	auto copy = DecodedExecuteSegment::create_private_copy(segment);
+	for (auto& seg : m_exec) {
+		if (seg == segment) seg = copy;
+	}
+	if (m_main_exec_segment == segment) m_main_exec_segment = copy;
+	if (&machine().cpu.current_execute_segment() == segment.get()) {
+		machine().cpu.set_execute_segment(*copy);
+	}
+	return copy;
 }
 
 void Memory::reset()
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 9dc694f..d7de92d 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -52,6 +52,8 @@ namespace loongarch
 			bool is_initial, bool is_likely_jit = false);
 
 		std::shared_ptr<DecodedExecuteSegment> exec_segment_for(address_t pc) const;
+		// Get an execute segment that can be modified, without affecting other machines
+		std::shared_ptr<DecodedExecuteSegment> private_exec_segment_for(address_t pc);
 		size_t execute_segments_count() const noexcept { return m_exec.size() + (m_main_exec_segment ? 1 : 0); }
 		void evict_execute_segments();
 
diff --git a/lib/libloong/shared_exec_segment.hpp b/lib/libloong/shared_exec_segment.hpp
index 3f6193e..18aa3ee 100644
--- a/lib/libloong/shared_exec_segment.hpp
+++ b/lib/libloong/shared_exec_segment.hpp
@@ -21,11 +21,13 @@ namespace loongarch
 		static SegmentKey from(const DecodedExecuteSegment& segment, uint64_t arena_size);
 
 		bool operator==(const SegmentKey& other) const {
-			return pc == other.pc && crc == other.crc;
+			return pc == other.pc && crc == other.crc && arena_size == other.arena_size;
 		}
 
 		bool operator<(const SegmentKey& other) const {
-			return pc < other.pc || (pc == other.pc && crc < other.crc);
+			if (pc != other.pc) return pc < other.pc;
+			if (crc != other.crc) return crc < other.crc;
+			return arena_size < other.arena_size;
 		}
 	};
 
-- 
2.43.0


From 9a3d5f826d6d195eb36bca6c103830d23bae1cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:51 +0000
Subject: [PATCH 24/34] fix: signal actions round-trip, signal 0 is not signal
 1, handlers get the signal number

---
 lib/libloong/linux/syscalls.cpp |  6 +-----
 lib/libloong/posix/signals.cpp  | 11 +++++------
 lib/libloong/posix/signals.hpp  |  7 ++++++-
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 5ebdccb..2bd0854 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -380,7 +380,6 @@ namespace loongarch
 		struct kernel_sigaction {
 			address_t sa_handler;
 			address_t sa_flags;
-			address_t sa_restorer;
 			address_t sa_mask;
 		};
 
@@ -388,9 +387,8 @@ namespace loongarch
 
 		// Return old action if requested
 		if (old_action != 0x0) {
-			sa.sa_handler = sigact.handler & ~address_t(0x3);
+			sa.sa_handler = sigact.is_unset() ? 0x0 : sigact.handler & ~address_t(0x3);
 			sa.sa_flags   = (sigact.altstack ? LINUX_SA_ONSTACK : 0x0);
-			sa.sa_restorer = 0;
 			sa.sa_mask    = sigact.mask;
 			machine.memory.copy_to_guest(old_action, &sa, sizeof(sa));
 		}
@@ -429,7 +427,6 @@ namespace loongarch
 
 		// Jump to signal handler and change to altstack, if set
 		machine.signals().enter(machine, sig);
-		machine.set_result(0);
 	}
 
 	static void syscall_tgkill(Machine& machine)
@@ -459,7 +456,6 @@ namespace loongarch
 
 		// Jump to signal handler and change to altstack, if set
 		machine.signals().enter(machine, sig);
-		machine.set_result(0);
 	}
 
 	static void syscall_brk(Machine& machine)
diff --git a/lib/libloong/posix/signals.cpp b/lib/libloong/posix/signals.cpp
index fe59858..c2b9560 100644
--- a/lib/libloong/posix/signals.cpp
+++ b/lib/libloong/posix/signals.cpp
@@ -6,10 +6,7 @@ namespace loongarch
 {
 	SignalAction& Signals::get(int sig)
 	{
-		if (sig == 0) {
-			return signals[0];
-		}
-		else if (sig < 1 || sig > 64) {
+		if (sig < 1 || sig > 64) {
 			throw MachineException(INVALID_PROGRAM,
 				"Signal number out of range", sig);
 		}
@@ -27,11 +24,13 @@ namespace loongarch
 		// Switch to alternate stack if configured
 		if (sigact.altstack) {
 			auto& stack = per_thread(machine.gettid()).stack;
-			machine.cpu.reg(REG_SP) = stack.ss_sp + stack.ss_size;
+			if (stack.is_enabled())
+				machine.cpu.reg(REG_SP) = stack.ss_sp + stack.ss_size;
 		}
 
-		// Jump to handler
+		// Jump to handler with the signal number as argument
 		machine.cpu.jump(sigact.handler-4);
+		machine.cpu.reg(REG_A0) = sig;
 	}
 
 } // namespace loongarch
diff --git a/lib/libloong/posix/signals.hpp b/lib/libloong/posix/signals.hpp
index c09902b..7acda6f 100644
--- a/lib/libloong/posix/signals.hpp
+++ b/lib/libloong/posix/signals.hpp
@@ -15,6 +15,11 @@ namespace loongarch
 		address_t ss_sp = 0x0;      // Stack pointer
 		int       ss_flags = 0x0;   // Flags (SS_ONSTACK, SS_DISABLE, etc.)
 		address_t ss_size = 0;      // Stack size
+
+		static constexpr int SS_DISABLE = 2;
+		bool is_enabled() const noexcept {
+			return ss_size != 0 && (ss_flags & SS_DISABLE) == 0;
+		}
 	};
 
 	// Signal action configuration (per-signal)
@@ -28,7 +33,7 @@ namespace loongarch
 
 		address_t handler = SIG_UNSET;  // Handler address
 		bool altstack = false;          // Use alternate stack?
-		unsigned mask = 0x0;            // Signal mask
+		uint64_t mask = 0x0;            // Signal mask
 	};
 
 	// Signal return state (stores registers for return)
-- 
2.43.0


From b406d35ba361ee5bec6df846cbc7a9734f289413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:37 +0000
Subject: [PATCH 25/34] fix: thread lists, futex wait/wake and thread exit

---
 lib/libloong/linux/syscalls_threads.cpp | 23 ++++++++++++++++-------
 lib/libloong/posix/threads.cpp          | 22 +++++++++++++++++-----
 lib/libloong/posix/threads.hpp          | 10 +++++-----
 3 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 641a639..5da433a 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -47,11 +47,11 @@ namespace loongarch
 				thprint(machine,
 					"FUTEX: Waiting (blocked)... uaddr=0x%llx val=%d, bitset=%d\n",
 					static_cast<unsigned long long>(addr), val, is_bitset);
-				if (machine.threads().block(0, addr, is_bitset ? val3 : 0x0)) {
+				if (machine.threads().block(0, addr, is_bitset ? val3 : ~0x0)) {
 					return;
 				}
 				// Deadlock - unlock and continue
-				machine.memory.write<address_t>(addr, 0);
+				machine.memory.write<uint32_t>(addr, 0);
 				machine.set_result(0);
 				return;
 			}
@@ -59,7 +59,8 @@ namespace loongarch
 				"FUTEX: Wait condition EAGAIN... uaddr=0x%llx val=%d, bitset=%d\n",
 				static_cast<unsigned long long>(addr), val, is_bitset);
 			// This thread isn't blocked, but yielding may be necessary
-			machine.threads().suspend_and_yield(-LA_EAGAIN);
+			if (!machine.threads().suspend_and_yield(-LA_EAGAIN))
+				machine.set_result(-LA_EAGAIN);
 			return;
 		} else if ((futex_op & 0xF) == FUTEX_WAKE || (futex_op & 0xF) == FUTEX_WAKE_BITSET) {
 			const bool is_bitset = (futex_op & 0xF) == FUTEX_WAKE_BITSET;
@@ -106,7 +107,7 @@ namespace loongarch
 		// set_tid_address
 		this->install_syscall_handler(96,
 		[](Machine& machine) {
-			const int clear_tid = machine.sysarg<address_t>(0);
+			const auto clear_tid = machine.sysarg<address_t>(0);
 			// With initialized threads
 			if (machine.has_threads()) {
 				machine.threads().get_thread()->clear_tid = clear_tid;
@@ -135,7 +136,8 @@ namespace loongarch
 		this->install_syscall_handler(124,
 		[](Machine& machine) {
 			thprint(machine, "%s\n", ">>> sched_yield()");
-			machine.threads().suspend_and_yield();
+			if (!machine.threads().suspend_and_yield())
+				machine.set_result(0);
 		});
 
 		// tgkill (update to work with threads)
@@ -148,9 +150,16 @@ namespace loongarch
 			auto* thread = machine.threads().get_thread(tid);
 			if (thread != nullptr) {
 				// If the signal is unhandled, exit the thread
-				if (sig != 0 && machine.sigaction(sig).is_unset()) {
-					if (!thread->exit())
+				if (sig == 0) {
+					machine.set_result(0);
+					return;
+				} else if (machine.sigaction(sig).is_unset()) {
+					const bool exiting_myself = thread == machine.threads().get_thread();
+					if (!thread->exit()) {
+						if (!exiting_myself)
+							machine.set_result(0);
 						return;
+					}
 				} else {
 					// Jump to signal handler and change to altstack, if set
 					machine.signals().enter(machine, sig);
diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 7ac53cf..e085723 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -37,7 +37,9 @@ void MultiThreading::wakeup_next()
 		// resume next thread
 		next->resume();
 	} else {
+		// nothing else can run: resume the main thread, even if blocked
 		auto* next = get_thread(0);
+		std::erase(m_blocked, next);
 		next->resume();
 	}
 }
@@ -76,7 +78,9 @@ bool Thread::exit()
 	const int tid = this->tid;
 	// CLONE_CHILD_CLEARTID: set userspace TID value to zero
 	if (this->clear_tid) {
-		threading.machine.memory.write<address_t>(this->clear_tid, 0);
+		threading.machine.memory.write<uint32_t>(this->clear_tid, 0);
+		// Wake up a thread that is waiting for this one to exit
+		threading.wakeup_blocked(1, this->clear_tid);
 	}
 	// Delete this thread (except main thread)
 	if (tid != 0) {
@@ -108,7 +112,7 @@ void Thread::suspend(address_t return_value)
 	this->stored_regs.get(REG_A0) = return_value;
 }
 
-void Thread::block(uint32_t reason, uint32_t extra)
+void Thread::block(address_t reason, uint32_t extra)
 {
 	// copy all regs
 	this->stored_regs = threading.machine.cpu.registers();
@@ -118,7 +122,7 @@ void Thread::block(uint32_t reason, uint32_t extra)
 	threading.m_blocked.push_back(this);
 }
 
-void Thread::block_return(address_t return_value, uint32_t reason, uint32_t extra)
+void Thread::block_return(address_t return_value, address_t reason, uint32_t extra)
 {
 	this->block(reason, extra);
 	// set the block reason as the next return value
@@ -162,6 +166,10 @@ Thread* MultiThreading::create(
 
 void MultiThreading::erase_thread(int tid)
 {
+	// The thread may be suspended or blocked
+	auto* thread = get_thread(tid);
+	std::erase(m_suspended, thread);
+	std::erase(m_blocked, thread);
 	m_threads.erase(tid);
 }
 
@@ -177,7 +185,7 @@ bool MultiThreading::suspend_and_yield(long result)
 	return false;
 }
 
-bool MultiThreading::block(address_t retval, uint32_t reason, uint32_t extra)
+bool MultiThreading::block(address_t retval, address_t reason, uint32_t extra)
 {
 	// Block current thread and yield to next
 	if (!m_suspended.empty() || m_threads.size() > 1) {
@@ -200,7 +208,7 @@ void MultiThreading::unblock(int tid)
 	}
 }
 
-size_t MultiThreading::wakeup_blocked(size_t max, uint32_t reason, uint32_t mask)
+size_t MultiThreading::wakeup_blocked(size_t max, address_t reason, uint32_t mask)
 {
 	size_t awakened = 0;
 	for (auto it = m_blocked.begin(); it != m_blocked.end() && awakened < max; ) {
@@ -228,6 +236,10 @@ bool MultiThreading::yield_to(int tid, bool store_retval, address_t retval)
 {
 	auto* thread = get_thread(tid);
 	if (thread == nullptr) return false;
+	// Blocked threads can only be resumed by unblocking them
+	auto it = std::find(m_suspended.begin(), m_suspended.end(), thread);
+	if (it == m_suspended.end()) return false;
+	m_suspended.erase(it);
 
 	auto* current = get_thread();
 	if (store_retval)
diff --git a/lib/libloong/posix/threads.hpp b/lib/libloong/posix/threads.hpp
index 90985fa..40ad4be 100644
--- a/lib/libloong/posix/threads.hpp
+++ b/lib/libloong/posix/threads.hpp
@@ -28,7 +28,7 @@ namespace loongarch
 		// Address zeroed when exiting
 		address_t clear_tid = 0;
 		// The current or last blocked word
-		uint32_t block_word = 0;
+		address_t block_word = 0;
 		uint32_t block_extra = 0;
 
 		Thread(MultiThreading&, int tid, address_t tls,
@@ -37,8 +37,8 @@ namespace loongarch
 		bool exit(); // Returns false when we *cannot* continue
 		void suspend();
 		void suspend(address_t return_value);
-		void block(uint32_t reason, uint32_t extra = 0);
-		void block_return(address_t return_value, uint32_t reason, uint32_t extra);
+		void block(address_t reason, uint32_t extra = 0);
+		void block_return(address_t return_value, address_t reason, uint32_t extra);
 		void activate();
 		void resume();
 	};
@@ -55,9 +55,9 @@ namespace loongarch
 		bool      yield_to(int tid, bool store_retval = false, address_t retval = 0);
 		void      erase_thread(int tid);
 		void      wakeup_next();
-		bool      block(address_t retval, uint32_t reason, uint32_t extra = 0);
+		bool      block(address_t retval, address_t reason, uint32_t extra = 0);
 		void      unblock(int tid);
-		size_t    wakeup_blocked(size_t max, uint32_t reason, uint32_t mask = ~0U);
+		size_t    wakeup_blocked(size_t max, address_t reason, uint32_t mask = ~0U);
 		/* A suspended thread can at any time be resumed. */
 		auto&     suspended_threads() { return m_suspended; }
 		/* A blocked thread can only be resumed by unblocking it. */
-- 
2.43.0


From ccda6605857bff225a075b2d5f5e02849a2ebd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 26/34] fix: a thread that is ended while blocked does not take
 the wakeup of its own exit

---
 lib/libloong/posix/threads.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index e085723..321a975 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -79,6 +79,8 @@ bool Thread::exit()
 	// CLONE_CHILD_CLEARTID: set userspace TID value to zero
 	if (this->clear_tid) {
 		threading.machine.memory.write<uint32_t>(this->clear_tid, 0);
+		// An exiting thread no longer waits for anything
+		std::erase(threading.m_blocked, this);
 		// Wake up a thread that is waiting for this one to exit
 		threading.wakeup_blocked(1, this->clear_tid);
 	}
-- 
2.43.0


From 5eec8b48f431751b0a362c9da619da0caae84e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 27/34] fix: clock_gettime does not read the CPU clocks of host
 processes

---
 lib/libloong/linux/syscalls.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 2bd0854..aeae28e 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -240,7 +240,8 @@ namespace loongarch
 			machine.template sysargs<int, address_t>();
 		if (tp != 0) {
 			struct timespec ts;
-			if (clock_gettime(clockid, &ts) != 0) {
+			// Negative clock ids name the CPU clocks of host processes
+			if (clockid < 0 || clock_gettime(clockid, &ts) != 0) {
 				machine.set_result(-LA_EINVAL);
 				return;
 			}
-- 
2.43.0


From 1b3cb9f0bf231c4e32e9437e7e483bb704276713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 28/34] fix: assigning a scoped guest object frees the old one
 and fixes its addresses

---
 lib/libloong/guest_datatypes.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index d246e99..2eba9df 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -576,6 +576,9 @@ struct ScopedArenaObject {
 		this->allocate_if_null();
 		this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
 		new (m_ptr) T(other);
+		if constexpr (has_fix_addresses<T>::value) {
+			this->m_ptr->fix_addresses(*m_machine, this->m_addr);
+		}
 		return *this;
 	}
 
@@ -597,7 +600,10 @@ struct ScopedArenaObject {
 	}
 
 	ScopedArenaObject& operator=(ScopedArenaObject&& other) {
+		if (this == &other)
+			return *this;
 		this->free_standard_types();
+		m_machine->arena().free(this->m_addr);
 		this->m_machine = other.m_machine;
 		this->m_addr = other.m_addr;
 		this->m_ptr = other.m_ptr;
-- 
2.43.0


From 0fd0ce2821d67bc7777f5dde7b4c5e24bdffa849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 29/34] fix: guest vectors with inconsistent pointers, empty
 vectors and unused capacity

---
 lib/libloong/guest_datatypes.hpp | 49 +++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 2eba9df..2ddccd6 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -314,17 +314,13 @@ struct GuestStdVector {
 	}
 
 	void push_back(Machine& machine, T&& value) {
-		if (size_bytes() >= capacity_bytes())
-			this->increase_capacity(machine);
-		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + 1);
+		T* array = this->grow(machine, 1);
 		new (&array[size()]) T(std::move(value));
 		this->ptr_end += sizeof(T);
 	}
 
 	void push_back(Machine& machine, const T& value) {
-		if (size_bytes() >= capacity_bytes())
-			this->increase_capacity(machine);
-		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + 1);
+		T* array = this->grow(machine, 1);
 		new (&array[size()]) T(value);
 		this->ptr_end += sizeof(T);
 	}
@@ -332,9 +328,7 @@ struct GuestStdVector {
 	// Specialization for std::string and std::string_view
 	void push_back(Machine& machine, std::string_view value) {
 		static_assert(std::is_same_v<T, GuestStdString>, "GuestStdVector: T must be a GuestStdString");
-		if (size_bytes() >= capacity_bytes())
-			this->increase_capacity(machine);
-		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + 1);
+		T* array = this->grow(machine, 1);
 		const address_t address = this->ptr_begin + size() * sizeof(T);
 		new (&array[size()]) T(machine, address, value);
 		this->ptr_end += sizeof(T);
@@ -355,9 +349,9 @@ struct GuestStdVector {
 	}
 
 	void append(Machine& machine, const T* values, std::size_t count) {
-		if (size_bytes() + count * sizeof(T) > capacity_bytes())
-			this->reserve(machine, size() + count);
-		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + count);
+		if (count == 0)
+			return;
+		T* array = this->grow(machine, count);
 		for (std::size_t i = 0; i < count; i++)
 			new (&array[size() + i]) T(values[i]);
 		this->ptr_end += count * sizeof(T);
@@ -378,12 +372,16 @@ struct GuestStdVector {
 	T* as_array(Machine& machine, std::size_t max_bytes = 16UL << 20) {
 		if (size_bytes() > max_bytes)
 			throw std::runtime_error("Guest std::vector has size > max_bytes");
+		if (empty())
+			return nullptr;
 		return machine.memory.template writable_memarray<T>(data(), size());
 	}
 
 	const T* as_array(const Machine& machine, std::size_t max_bytes = 16UL << 20) const {
 		if (size_bytes() > max_bytes)
 			throw std::runtime_error("Guest std::vector has size > max_bytes");
+		if (empty())
+			return nullptr;
 		return machine.memory.template memarray<T>(data(), size());
 	}
 
@@ -396,6 +394,8 @@ struct GuestStdVector {
 			throw std::runtime_error("Guest std::vector has size > capacity");
 		// Copy the vector from guest memory
 		const size_t elements = size();
+		if (elements == 0)
+			return {};
 		const T* array = machine.memory.template memarray<T>(data(), elements);
 		return std::vector<T>(&array[0], &array[elements]);
 	}
@@ -407,6 +407,8 @@ struct GuestStdVector {
 		if constexpr (std::is_same_v<T, GuestStdString>) {
 			std::vector<std::string> vec;
 			const size_t elements = size();
+			if (elements == 0)
+				return vec;
 			const T* array = machine.memory.template memarray<T>(data(), elements);
 			vec.reserve(elements);
 			for (std::size_t i = 0; i < elements; i++)
@@ -453,6 +455,9 @@ struct GuestStdVector {
 	{
 		if (elements <= capacity())
 			return;
+		// The elements must fit in the new allocation
+		if (size_bytes() > capacity_bytes())
+			throw std::runtime_error("Guest std::vector has size > capacity");
 
 		GuestStdVector<T> old_vec(std::move(*this));
 		// Allocate new memory
@@ -460,12 +465,15 @@ struct GuestStdVector {
 		(void)self;
 		if (!old_vec.empty()) {
 			std::copy(old_vec.as_array(machine), old_vec.as_array(machine) + old_vec.size(), array);
-			// Free the old vector manually (as we don't want to call the destructor(s))
-			machine.arena().free(old_vec.ptr_begin);
 		}
+		// Free the old vector manually (as we don't want to call the destructor(s))
+		if (old_vec.ptr_begin != 0)
+			machine.arena().free(old_vec.ptr_begin);
 		this->ptr_end = this->ptr_begin + old_vec.size() * sizeof(T);
 		// Adjust SSO if the vector contains std::string
 		if constexpr (std::is_same_v<T, GuestStdString>) {
+			if (this->empty())
+				return;
 			T* array = machine.memory.template writable_memarray<T>(this->data(), size());
 			for (std::size_t i = 0; i < size(); i++)
 				array[i].move(this->ptr_begin + i * sizeof(T));
@@ -507,8 +515,17 @@ struct GuestStdVector {
 	std::size_t capacity_bytes() const noexcept { return ptr_capacity - ptr_begin; }
 
 private:
-	void increase_capacity(Machine& machine) {
-		this->reserve(machine, capacity() * 2 + 4);
+	// Make room for more elements, and return the (writable) array with room for them
+	T* grow(Machine& machine, std::size_t count) {
+		const std::size_t old_size = size();
+		const std::size_t new_size = old_size + count;
+		if (new_size < old_size || size_bytes() > capacity_bytes())
+			throw std::runtime_error("Guest std::vector has size > capacity");
+		if (new_size > capacity()) {
+			const std::size_t doubled = capacity() * 2 + 4;
+			this->reserve(machine, count == 1 ? doubled : new_size);
+		}
+		return machine.memory.template writable_memarray<T>(this->data(), new_size);
 	}
 
 	std::tuple<T*, address_t> alloc(Machine& machine, std::size_t elements) {
-- 
2.43.0


From 797c91774612dcd304af750d202a1187f7923683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:00 +0000
Subject: [PATCH 30/34] fix: a backtrace prints symbol names of any length

---
 lib/libloong/machine_backtrace.cpp | 31 ++++++++++--------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/lib/libloong/machine_backtrace.cpp b/lib/libloong/machine_backtrace.cpp
index 2225c12..584d8b1 100644
--- a/lib/libloong/machine_backtrace.cpp
+++ b/lib/libloong/machine_backtrace.cpp
@@ -45,18 +45,15 @@ std::string Machine::backtrace(address_t initial) const
 	if (initial == 0) {
 		initial = cpu.pc();
 	}
-	char buffer[4096];
-	int n = snprintf(buffer, sizeof(buffer),
-		"#-: 0x%016lx %s\n",
-		(unsigned long)initial,
-		lookup_demangled_symbol(initial).c_str());
-
 	std::string result;
-	if (n > 0) {
-		result.append(buffer, static_cast<size_t>(n));
-	} else {
-		return result;
-	}
+	// Symbol names have any length, only the location is formatted
+	const auto append_line = [&](address_t addr) {
+		char buffer[32];
+		snprintf(buffer, sizeof(buffer), ": 0x%016lx ", (unsigned long)addr);
+		result.append(buffer).append(lookup_demangled_symbol(addr)).append("\n");
+	};
+	result.append("#-");
+	append_line(initial);
 
 	/// XXX: If the binary has unwinding information, we could use that here
 	/// to do a more reliable backtrace. For now, we will just read the return
@@ -65,16 +62,8 @@ std::string Machine::backtrace(address_t initial) const
 	address_t ra = cpu.reg(REG_RA);
 	size_t depth = 0;
 	while (ra != 0 && depth < 64) {
-		int n = snprintf(buffer, sizeof(buffer),
-			"#%zu: 0x%016lx %s\n",
-			depth,
-			(unsigned long)ra,
-			lookup_demangled_symbol(ra).c_str());
-		if (n > 0) {
-			result.append(buffer, static_cast<size_t>(n));
-		} else {
-			break;
-		}
+		result.append("#").append(std::to_string(depth));
+		append_line(ra);
 		// Read next return address from stack
 		try {
 			ra = memory.template read<address_t>(sp);
-- 
2.43.0


From 8851bbfe8e2a311ed970dc24032aafe48f4cdeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:00 +0000
Subject: [PATCH 31/34] fix: a failed clone leaves no thread behind

---
 lib/libloong/posix/threads.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 321a975..f3cb7ff 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -149,16 +149,18 @@ Thread* MultiThreading::create(
 		throw MachineException(INVALID_PROGRAM, "Too many threads", this->m_max_threads);
 
 	const int tid = ++this->m_thread_counter;
-	auto it = m_threads.try_emplace(tid, *this, tid, tls, stack, stkbase, stksize);
-	auto* thread = &it.first->second;
 
+	// The thread must not exist yet when writing its ID faults
 	// flag for write child TID
 	if (flags & CHILD_SETTID) {
-		machine.memory.write<uint32_t>(ctid, thread->tid);
+		machine.memory.write<uint32_t>(ctid, tid);
 	}
 	if (flags & PARENT_SETTID) {
-		machine.memory.write<uint32_t>(ptid, thread->tid);
+		machine.memory.write<uint32_t>(ptid, tid);
 	}
+
+	auto it = m_threads.try_emplace(tid, *this, tid, tls, stack, stkbase, stksize);
+	auto* thread = &it.first->second;
 	if (flags & CHILD_CLEARTID) {
 		thread->clear_tid = ctid;
 	}
-- 
2.43.0


From 4a89471dd6c529a1ad422ccd272309493798c67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:40 +0000
Subject: [PATCH 32/34] fix: short strings placed in a guest vector refer to
 themselves

---
 lib/libloong/guest_datatypes.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 2ddccd6..bc21c53 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -238,6 +238,7 @@ struct GuestStdVector {
 		(void)self;
 		for (std::size_t i = 0; i < elements; i++) {
 			new (&array[i]) T();
+			settle(array[i], this->ptr_begin + i * sizeof(T));
 		}
 		// Set new end only after all elements are constructed
 		this->ptr_end = this->ptr_begin + elements * sizeof(T);
@@ -316,12 +317,14 @@ struct GuestStdVector {
 	void push_back(Machine& machine, T&& value) {
 		T* array = this->grow(machine, 1);
 		new (&array[size()]) T(std::move(value));
+		settle(array[size()], this->ptr_end);
 		this->ptr_end += sizeof(T);
 	}
 
 	void push_back(Machine& machine, const T& value) {
 		T* array = this->grow(machine, 1);
 		new (&array[size()]) T(value);
+		settle(array[size()], this->ptr_end);
 		this->ptr_end += sizeof(T);
 	}
 
@@ -352,8 +355,10 @@ struct GuestStdVector {
 		if (count == 0)
 			return;
 		T* array = this->grow(machine, count);
-		for (std::size_t i = 0; i < count; i++)
+		for (std::size_t i = 0; i < count; i++) {
 			new (&array[size() + i]) T(values[i]);
+			settle(array[size() + i], this->ptr_end + i * sizeof(T));
+		}
 		this->ptr_end += count * sizeof(T);
 	}
 
@@ -424,6 +429,8 @@ struct GuestStdVector {
 		auto [array, self] = alloc(machine, vec.size());
 		(void)self;
 		std::copy(vec.begin(), vec.end(), array);
+		for (std::size_t i = 0; i < vec.size(); i++)
+			settle(array[i], this->ptr_begin + i * sizeof(T));
 		this->ptr_end = this->ptr_begin + vec.size() * sizeof(T);
 	}
 
@@ -432,6 +439,8 @@ struct GuestStdVector {
 		auto [array, self] = alloc(machine, count);
 		(void)self;
 		std::copy(values, values + count, array);
+		for (std::size_t i = 0; i < count; i++)
+			settle(array[i], this->ptr_begin + i * sizeof(T));
 		this->ptr_end = this->ptr_begin + count * sizeof(T);
 	}
 
@@ -445,8 +454,10 @@ struct GuestStdVector {
 			if (new_size > capacity())
 				this->reserve(machine, new_size);
 			T* array = machine.memory.template writable_memarray<T>(this->data(), new_size);
-			for (std::size_t i = size(); i < new_size; i++)
+			for (std::size_t i = size(); i < new_size; i++) {
 				new (&array[i]) T();
+				settle(array[i], this->ptr_begin + i * sizeof(T));
+			}
 			this->ptr_end = this->ptr_begin + new_size * sizeof(T);
 		}
 	}
@@ -515,6 +526,12 @@ struct GuestStdVector {
 	std::size_t capacity_bytes() const noexcept { return ptr_capacity - ptr_begin; }
 
 private:
+	// A short string refers to its own storage, wherever it was created or copied from
+	static void settle([[maybe_unused]] T& element, [[maybe_unused]] address_t self) {
+		if constexpr (std::is_same_v<T, GuestStdString>)
+			element.move(self);
+	}
+
 	// Make room for more elements, and return the (writable) array with room for them
 	T* grow(Machine& machine, std::size_t count) {
 		const std::size_t old_size = size();
-- 
2.43.0


From cde89b76adc27d91fd247fb8e682694736165cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:40 +0000
Subject: [PATCH 33/34] fix: freeing a guest Rust vector frees the strings in
 it

---
 lib/libloong/guest_datatypes.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index bc21c53..9970fd0 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -785,6 +785,13 @@ struct GuestRustVector {
 
 	void free(Machine& machine) {
 		if (this->ptr != 0) {
+			if constexpr (std::is_same_v<T, GuestRustString> || is_guest_rustvector<T>::value) {
+				if (!this->empty()) {
+					T* array = this->as_array(machine);
+					for (std::size_t i = 0; i < size(); i++)
+						array[i].free(machine);
+				}
+			}
 			machine.arena().free(this->ptr);
 			this->ptr = 0;
 			this->capacity = 0;
-- 
2.43.0


From ebb3a7a7f97602e51872eae88c14298c279dd743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:40 +0000
Subject: [PATCH 34/34] fix: a scoped guest object corrupted by the guest can
 be destroyed

---
 lib/libloong/guest_datatypes.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 9970fd0..4ae045c 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -593,7 +593,11 @@ struct ScopedArenaObject {
 	}
 
 	~ScopedArenaObject() {
-		this->free_standard_types();
+		try {
+			this->free_standard_types();
+		} catch (...) {
+			// The guest corrupted the object: what it owned can no longer be found
+		}
 		m_machine->arena().free(this->m_addr);
 	}
 
-- 
2.43.0

