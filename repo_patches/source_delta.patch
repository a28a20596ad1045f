From db5c6698d0630dd796d9ab3157b13cff12aa72e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 01/36] fix: bit writes start every byte from zero instead of
 keeping old buffer contents

---
 src/vm/vm_internal.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index d4d1331..9f54eb6 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -214,7 +214,8 @@ static inline void write_bits(cnd_vm_ctx* ctx, uint64_t val, uint8_t count) {
             mask = 1 << ctx->bit_offset;
         }
 
-        uint8_t current_byte = ctx->data_buffer[ctx->cursor];
+        // The first bit written to a byte discards what the buffer held before
+        uint8_t current_byte = (ctx->bit_offset == 0) ? 0 : ctx->data_buffer[ctx->cursor];
         
         if (bit) current_byte |= mask;
         else current_byte &= ~mask;
-- 
2.43.0


From 8d2bb29f2441f2ae98fb12133ff7813ef563a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 02/36] fix: bit fields and padding past the end of the data
 are out of bounds

---
 src/vm/vm_exec.c     |  7 +++++--
 src/vm/vm_internal.h | 13 ++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 5d6b443..7689666 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -420,7 +420,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
     }
 
 static int64_t sign_extend(uint64_t val, uint8_t bits) {
-    if (bits >= 64) return (int64_t)val;
+    if (bits == 0 || bits >= 64) return (int64_t)val;
     uint64_t m = 1ULL << (bits - 1);
     return (int64_t)((val ^ m) - m);
 }
@@ -977,7 +977,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_F64: HANDLE_FLOAT(8, double, uint64_t, read_u64(ctx->data_buffer + ctx->cursor, ctx->endianness), write_u64(ctx->data_buffer + ctx->cursor, t, ctx->endianness));
 
             // ... Category C (Bitfields) ...
-            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
+            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if(!bits_available(ctx,b)) return CND_ERR_OOB; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
             
             case OP_ENTER_BIT_MODE: {
                 // No-op for now
@@ -1009,6 +1009,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t k=FETCH_IL_U16(ctx); 
                 uint8_t b=FETCH_IL_U8(ctx); 
                 int64_t v=0; 
+                if(!bits_available(ctx,b)) return CND_ERR_OOB;
                 if(ctx->mode==CND_MODE_ENCODE){ 
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
@@ -1024,6 +1025,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_BIT_BOOL: {
                 uint16_t k = FETCH_IL_U16(ctx);
                 uint8_t v = 0;
+                if (!bits_available(ctx, 1)) return CND_ERR_OOB;
                 if (ctx->mode == CND_MODE_ENCODE) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -1039,6 +1041,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             }
             case OP_ALIGN_PAD: { 
                 uint8_t b=FETCH_IL_U8(ctx); 
+                if (!bits_available(ctx, b)) return CND_ERR_OOB;
                 if (ctx->mode == CND_MODE_ENCODE) {
                     write_bits(ctx, 0, b);
                 } else {
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index 9f54eb6..0ec1fa4 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -94,6 +94,13 @@ static inline uint64_t read_u64(const uint8_t* buf, cnd_endian_t endian) {
     }
 }
 
+// True if `count` more bits fit between the current position and the end of the data.
+static inline bool bits_available(const cnd_vm_ctx* ctx, uint8_t count) {
+    size_t start = ctx->cursor + (ctx->bit_offset + (size_t)count) / 8;
+    size_t rest = (ctx->bit_offset + (size_t)count) % 8;
+    return start < ctx->data_len || (start == ctx->data_len && rest == 0);
+}
+
 static inline uint64_t read_bits(cnd_vm_ctx* ctx, uint8_t count) {
     // Optimization: Byte-aligned reads
     if (ctx->bit_offset == 0 && (count & 7) == 0) {
@@ -122,7 +129,7 @@ static inline uint64_t read_bits(cnd_vm_ctx* ctx, uint8_t count) {
             // LE: bit_offset 0 is LSB (0)
             // Read from LSB of stream, pack into LSB of val
             bit = (current_byte >> ctx->bit_offset) & 1;
-            if (bit) val |= ((uint64_t)1 << i);
+            if (bit && i < 64) val |= ((uint64_t)1 << i);
         }
         
         ctx->bit_offset++;
@@ -206,11 +213,11 @@ static inline void write_bits(cnd_vm_ctx* ctx, uint64_t val, uint8_t count) {
 
         if (ctx->endianness == CND_BE) {
             // BE: Write MSB of val first to MSB of stream
-            bit = (val >> (count - 1 - i)) & 1;
+            bit = (count - 1 - i < 64) ? (val >> (count - 1 - i)) & 1 : 0;
             mask = 1 << (7 - ctx->bit_offset);
         } else {
             // LE: Write LSB of val first to LSB of stream
-            bit = (val >> i) & 1;
+            bit = (i < 64) ? (val >> i) & 1 : 0;
             mask = 1 << ctx->bit_offset;
         }
 
-- 
2.43.0


From 235d8efff54b5f174dc67bf738ecac92a23d8f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:26 +0000
Subject: [PATCH 03/36] fix: CRC-32 fast path reflects the initial value like
 the general path

---
 src/vm/vm_exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 7689666..5c296ea 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -473,7 +473,7 @@ static const uint32_t crc32_table[256] = {
 static uint32_t calc_crc(const uint8_t* data, size_t len, uint32_t poly, uint32_t init, uint32_t xorout, uint8_t flags, int width) {
     // Fast path for Standard CRC32 (Poly 0x04C11DB7, RefIn=1, RefOut=1)
     if (width == 32 && poly == 0x04C11DB7 && (flags & 1) && (flags & 2)) {
-        uint32_t crc = init;
+        uint32_t crc = reflect(init, 32); // the table works on the reflected register
         for (size_t i = 0; i < len; i++) {
             crc = (crc >> 8) ^ crc32_table[(crc ^ data[i]) & 0xFF];
         }
-- 
2.43.0


From 317ad478e0b4b0ca9a06b9cf2835f196609bf1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 04/36] fix: computed fields start on a byte boundary and
 decode compares the stored width

---
 src/vm/vm_exec.c | 65 +++++++-----------------------------------------
 1 file changed, 9 insertions(+), 56 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 5c296ea..ec3d613 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -531,7 +531,11 @@ static const bool ALIGN_TABLE[256] = {
     0, // 0x4A MARK_OPTIONAL
     1, // 0x4B ENUM_CHECK
     1, 1, 1, 1, // 0x4C - 0x4F
-    // 0x50 - 0xFF (Control Flow & Others) - No alignment
+    // 0x50 - 0x5F (Control Flow) - No alignment
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+    // 0x60 - 0x6F (Expression Stack) - Only OP_EMIT touches the data
+    0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+    // 0x70 - 0xFF (Others) - No alignment
     0 // ... rest 0
 };
 
@@ -1450,60 +1454,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     
                     ctx->cursor += size;
                 } else {
-                    // In Decode mode, OP_EMIT might be used to push a calculated value to the JSON output?
-                    // If so, we need to call the callback.
-                    // But we don't have a key here. OP_EMIT is just "write to stream".
-                    // Wait, if we are decoding, we read from stream.
-                    // But @expr fields are calculated, not read.
-                    // So in Decode mode, we shouldn't be reading from stream for @expr fields?
-                    // If @expr is used, it means "Calculate this".
-                    // If the field exists in the binary, we should read it and compare? Or just read it?
-                    // Usually @expr(x) means "The value of this field is x".
-                    // If it's in the packet definition, it usually implies it's present in the binary.
-                    // If it's present in binary, we should read it.
-                    // But if we calculate it, do we verify it matches the binary?
-                    // Or do we ignore the binary and use the calculated value?
-                    
-                    // If the user writes:
-                    // @expr(len(x)) uint16 length;
-                    // In Encode: Calculate len(x), write to binary.
-                    // In Decode: Read from binary. (And maybe verify it matches len(x)?)
-                    
-                    // If I use OP_EMIT for Encode, what do I use for Decode?
-                    // For Decode, I should use OP_IO_... to read it.
-                    
-                    // So the parser needs to emit different code for Encode vs Decode?
-                    // The VM bytecode is the same for both.
-                    // So the bytecode must handle both.
-                    
-                    // If I use OP_EMIT, it only works for Encode (writing).
-                    // In Decode, we want to READ.
-                    
-                    // So OP_EMIT should be:
-                    // Encode: Pop val, Write val.
-                    // Decode: Read val, Push val? Or just Read val and discard?
-                    // If we want to verify, we need to compare popped val with read val.
-                    
-                    // Let's assume for now OP_EMIT is "Write Stack to Binary" (Encode) and "Read Binary to Stack" (Decode)?
-                    // If Decode:
-                    //   Read val from binary.
-                    //   Pop expected val from stack (calculated).
-                    //   Compare?
-                    
-                    // If I implement it as:
-                    // Encode: Write(pop())
-                    // Decode: Read() -> push() ? No, that's OP_IO.
-                    
-                    // If the field is @expr(calc), then:
-                    // Encode: val = calc(); write(val);
-                    // Decode: val_bin = read(); val_calc = calc(); if (val_bin != val_calc) error;
-                    
-                    // So:
-                    // 1. Calculate value (pushes to stack).
-                    // 2. OP_EMIT (type)
-                    //    Encode: val = pop(); write(val);
-                    //    Decode: val_calc = pop(); val_bin = read(); if (val_bin != val_calc) error;
-                    
+                    // Decode: the stored value must equal the calculated one
                     int size = 0;
                     if (type == OP_IO_U8 || type == OP_IO_I8 || type == OP_IO_BOOL) size = 1;
                     else if (type == OP_IO_U16 || type == OP_IO_I16) size = 2;
@@ -1535,7 +1486,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         double diff = d_val - d_bin;
                         if (diff < -0.0000001 || diff > 0.0000001) return CND_ERR_VALIDATION;
                     } else {
-                        if (bin_val != val) return CND_ERR_VALIDATION;
+                        // The message only carries the low `size` bytes of the value
+                        uint64_t expected = (size == 8) ? val : (val & (((uint64_t)1 << (size * 8)) - 1));
+                        if (bin_val != expected) return CND_ERR_VALIDATION;
                     }
                     
                     ctx->cursor += size;
-- 
2.43.0


From e13c8d9c71cb537a9c334ed3945efa87c0b03046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 05/36] fix: skipping the body of an empty array steps over
 whole instructions

---
 src/vm/vm_exec.c     |  16 ++++-
 src/vm/vm_internal.h | 143 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 156 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index ec3d613..a2348be 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -304,13 +304,23 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
 // --- Loop Stack Helpers ---
 
 static void skip_loop_body(cnd_vm_ctx* ctx) {
+    const uint8_t* bc = ctx->program->bytecode;
+    size_t len = ctx->program->bytecode_len;
     int depth = 1;
-    while (ctx->ip < ctx->program->bytecode_len && depth > 0) {
-        uint8_t op = ctx->program->bytecode[ctx->ip];
+    while (ctx->ip < len && depth > 0) {
+        uint8_t op = bc[ctx->ip];
         if (op == OP_ARR_FIXED || op == OP_ARR_PRE_U8 || 
             op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_EOF || op == OP_ARR_DYNAMIC) depth++;
         if (op == OP_ARR_END) depth--;
-        ctx->ip++; 
+        
+        // Step over whole instructions: arguments and jump tables are not opcodes
+        size_t n = 1;
+        if (cnd_il_instr_len(bc, len, ctx->ip, &n) == CND_INSTR_TRUNCATED) n = len - ctx->ip;
+        else if (op == OP_SWITCH || op == OP_SWITCH_TABLE) {
+            size_t table, size;
+            if (cnd_il_switch_table(bc, len, ctx->ip, &table, &size)) n = table + size - ctx->ip;
+        }
+        ctx->ip += n;
     }
 }
 
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index 0ec1fa4..5a8791d 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -50,6 +50,149 @@ static inline uint32_t peek_il_u32(cnd_vm_ctx* ctx, size_t idx) {
     return b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
 }
 
+// --- Instruction Layout ---
+
+typedef enum {
+    CND_INSTR_OK = 0,
+    CND_INSTR_UNKNOWN,   // No such opcode
+    CND_INSTR_TRUNCATED  // The arguments run past the end
+} cnd_instr_status;
+
+// Width of a typed immediate (CONST/RANGE/ENUM/EMIT), 0 for anything that is not a number
+static inline size_t cnd_il_type_size(uint8_t type) {
+    switch (type) {
+        case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: return 1;
+        case OP_IO_U16: case OP_IO_I16: return 2;
+        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
+        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
+        default: return 0;
+    }
+}
+
+static inline uint32_t cnd_il_get_u32(const uint8_t* b) {
+    return (uint32_t)b[0] | ((uint32_t)b[1] << 8) | ((uint32_t)b[2] << 16) | ((uint32_t)b[3] << 24);
+}
+
+static inline uint64_t cnd_il_get_u64(const uint8_t* b) {
+    return (uint64_t)cnd_il_get_u32(b) | ((uint64_t)cnd_il_get_u32(b + 4) << 32);
+}
+
+// Length in bytes (opcode included) of the instruction at `ip`.
+// The jump table of a switch is not part of the instruction (see cnd_il_switch_table).
+static inline cnd_instr_status cnd_il_instr_len(const uint8_t* bc, size_t len, size_t ip, size_t* out) {
+    size_t n;
+    size_t left = len - ip;
+    *out = 1;
+    switch (bc[ip]) {
+        case OP_NOOP: case OP_SET_ENDIAN_LE: case OP_SET_ENDIAN_BE: case OP_EXIT_STRUCT:
+        case OP_ENTER_BIT_MODE: case OP_EXIT_BIT_MODE: case OP_ARR_END: case OP_MARK_OPTIONAL:
+        case OP_POP: case OP_SWAP: case OP_DUP:
+        case OP_ADD: case OP_SUB: case OP_MUL: case OP_DIV: case OP_MOD: case OP_NEG:
+        case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: case OP_FNEG:
+        case OP_SIN: case OP_COS: case OP_TAN: case OP_SQRT: case OP_POW: case OP_LOG: case OP_ABS:
+        case OP_ITOF: case OP_FTOI:
+        case OP_EQ_F: case OP_NEQ_F: case OP_GT_F: case OP_LT_F: case OP_GTE_F: case OP_LTE_F:
+        case OP_BIT_AND: case OP_BIT_OR: case OP_BIT_XOR: case OP_BIT_NOT: case OP_SHL: case OP_SHR:
+        case OP_EQ: case OP_NEQ: case OP_GT: case OP_LT: case OP_GTE: case OP_LTE:
+        case OP_LOG_AND: case OP_LOG_OR: case OP_LOG_NOT:
+            n = 1;
+            break;
+
+        case OP_META_VERSION: case OP_ALIGN_PAD: case OP_ALIGN_FILL: case OP_EMIT:
+            n = 2;
+            break;
+
+        case OP_ENTER_STRUCT: case OP_META_NAME: case OP_CTX_QUERY:
+        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
+        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
+        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL: case OP_IO_BIT_BOOL:
+        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
+        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: case OP_ARR_EOF:
+        case OP_LOAD_CTX: case OP_STORE_CTX:
+            n = 3;
+            break;
+
+        case OP_IO_BIT_U: case OP_IO_BIT_I:
+            n = 4;
+            break;
+
+        case OP_STR_NULL: case OP_ARR_DYNAMIC: case OP_JUMP: case OP_JUMP_IF_NOT:
+            n = 5;
+            break;
+
+        case OP_ARR_FIXED: case OP_RAW_BYTES: case OP_SWITCH: case OP_SWITCH_TABLE:
+            n = 7;
+            break;
+
+        case OP_CRC_16: n = 8; break;
+        case OP_CRC_32: n = 14; break;
+        case OP_SCALE_LIN: n = 17; break;
+        case OP_PUSH_IMM: case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV:
+            n = 9;
+            break;
+
+        case OP_TRANS_POLY:
+            if (left < 2) return CND_INSTR_TRUNCATED;
+            n = 2 + (size_t)bc[ip + 1] * 8;
+            break;
+        case OP_TRANS_SPLINE:
+            if (left < 2) return CND_INSTR_TRUNCATED;
+            n = 2 + (size_t)bc[ip + 1] * 16;
+            break;
+
+        case OP_CONST_WRITE:
+            if (left < 2) return CND_INSTR_TRUNCATED;
+            n = 2 + cnd_il_type_size(bc[ip + 1]);
+            break;
+        case OP_CONST_CHECK:
+            if (left < 4) return CND_INSTR_TRUNCATED;
+            n = 4 + cnd_il_type_size(bc[ip + 3]);
+            break;
+        case OP_RANGE_CHECK:
+            if (left < 2) return CND_INSTR_TRUNCATED;
+            n = 2 + cnd_il_type_size(bc[ip + 1]) * 2;
+            break;
+        case OP_ENUM_CHECK:
+            if (left < 4) return CND_INSTR_TRUNCATED;
+            n = 4 + cnd_il_type_size(bc[ip + 1]) * ((size_t)bc[ip + 2] | ((size_t)bc[ip + 3] << 8));
+            break;
+
+        default:
+            return CND_INSTR_UNKNOWN;
+    }
+    if (n > left) return CND_INSTR_TRUNCATED;
+    *out = n;
+    return CND_INSTR_OK;
+}
+
+// Locates the table of the SWITCH / SWITCH_TABLE instruction at `ip` (which must fit).
+// Returns false if the table is not completely inside the bytecode.
+static inline bool cnd_il_switch_table(const uint8_t* bc, size_t len, size_t ip, size_t* start, size_t* size) {
+    size_t base = ip + 7;
+    size_t rel = cnd_il_get_u32(bc + ip + 3);
+    if (rel > len - base) return false;
+    size_t at = base + rel;
+    size_t left = len - at;
+    if (bc[ip] == OP_SWITCH) {
+        if (left < 6) return false;
+        size_t n = 6 + ((size_t)bc[at] | ((size_t)bc[at + 1] << 8)) * 12;
+        if (n > left) return false;
+        *size = n;
+    } else {
+        if (left < 20) return false;
+        uint64_t min = cnd_il_get_u64(bc + at);
+        uint64_t max = cnd_il_get_u64(bc + at + 8);
+        uint64_t entries = 0;
+        if (min <= max) {
+            if (max - min >= (left - 20) / 4) return false;
+            entries = max - min + 1;
+        }
+        *size = 20 + (size_t)entries * 4;
+    }
+    *start = at;
+    return true;
+}
+
 // --- Data Access (Read) ---
 
 static inline uint8_t read_u8(const uint8_t* buf) {
-- 
2.43.0


From f4df5ebfa06c60c43c472b4d824cb6a07aad7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 06/36] fix: arrays until end of data: empty ones leak no loop
 frame, stalled ones end, and 2^32-1 counted elements are not mistaken for one

---
 include/concordia.h |  3 +++
 src/vm/vm_exec.c    | 22 +++++++++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/concordia.h b/include/concordia.h
index c116bef..b4a17eb 100644
--- a/include/concordia.h
+++ b/include/concordia.h
@@ -186,6 +186,9 @@ typedef enum {
 typedef struct {
     size_t start_ip;
     uint32_t remaining;
+    bool until_eof;             // Loop until the end of the data instead of counting
+    size_t iter_cursor;         // Data position at the start of the current iteration
+    uint8_t iter_bit_offset;
 } cnd_loop_frame;
 
 // Forward declaration for the IO callback
diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index a2348be..be2616d 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -328,6 +328,7 @@ static bool loop_push(cnd_vm_ctx* ctx, size_t start_ip, uint32_t count) {
     if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return false;
     ctx->loop_stack[ctx->loop_depth].start_ip = start_ip;
     ctx->loop_stack[ctx->loop_depth].remaining = count;
+    ctx->loop_stack[ctx->loop_depth].until_eof = false;
     ctx->loop_depth++;
     return true;
 }
@@ -1166,16 +1167,21 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 SYNC_IP();
 
                 if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return CND_ERR_STACK_OVERFLOW;
-                cnd_loop_frame* frame = &ctx->loop_stack[ctx->loop_depth++];
-                frame->start_ip = ctx->ip;
-                frame->remaining = 0xFFFFFFFF; // Special value for EOF loop
                 
                 // Check if we are already at EOF
                 if (ctx->cursor >= ctx->data_len) {
                     // Skip loop
                     skip_loop_body(ctx);
                     RELOAD_PC();
+                    break;
                 }
+                
+                cnd_loop_frame* frame = &ctx->loop_stack[ctx->loop_depth++];
+                frame->start_ip = ctx->ip;
+                frame->remaining = 0;
+                frame->until_eof = true;
+                frame->iter_cursor = ctx->cursor;
+                frame->iter_bit_offset = ctx->bit_offset;
                 break;
             }
 
@@ -1211,9 +1217,15 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 bool loop_continue = false;
                 
-                if (frame->remaining == 0xFFFFFFFF) {
+                if (frame->until_eof) {
                     // EOF Loop
-                    if (ctx->cursor < ctx->data_len) loop_continue = true;
+                    if (ctx->cursor < ctx->data_len) {
+                        // An element that takes no data would repeat forever
+                        if (ctx->cursor == frame->iter_cursor && ctx->bit_offset == frame->iter_bit_offset) return CND_ERR_VALIDATION;
+                        frame->iter_cursor = ctx->cursor;
+                        frame->iter_bit_offset = ctx->bit_offset;
+                        loop_continue = true;
+                    }
                 } else {
                     // Fixed/Prefixed Loop
                     if (frame->remaining > 0) frame->remaining--;
-- 
2.43.0


From 074d5b7b204a28e4534b95615b8850ae6a093fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 07/36] fix: a terminated string needs its terminator within
 the maximum length; a NULL string is an empty one

---
 src/vm/vm_exec.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index be2616d..58cb0a2 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -409,7 +409,8 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
                 } \
                 return CND_ERR_CALLBACK; \
             } \
-            size_t len = str ? strlen(str) : 0; \
+            if (!str) str = ""; \
+            size_t len = strlen(str); \
             ctype max_val = (ctype)-1; \
             if (len > (size_t)max_val) len = (size_t)max_val; \
             if (ctx->cursor + (size) + len > ctx->data_len) return CND_ERR_OOB; \
@@ -1084,7 +1085,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         return CND_ERR_CALLBACK;
                     }
                     
-                    size_t len = str ? strlen(str) : 0;
+                    if (!str) str = "";
+                    size_t len = strlen(str);
                     if (len > max_len) len = max_len;
                     
                     if (ctx->cursor + len + 1 > ctx->data_len) return CND_ERR_OOB;
@@ -1099,19 +1101,15 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     
                     // Optimization: Use memchr to find the null terminator quickly
                     size_t remaining = ctx->data_len - ctx->cursor;
-                    size_t search_len = (remaining < max_len) ? remaining : max_len;
+                    size_t search_len = (remaining <= max_len) ? remaining : (size_t)max_len + 1;
                     
                     void* found = memchr(ctx->data_buffer + ctx->cursor, 0x00, search_len);
                     
-                    if (found) {
-                        len = (uint8_t*)found - (ctx->data_buffer + ctx->cursor);
-                        ctx->cursor += len;
-                    } else {
-                        len = search_len;
-                        ctx->cursor += len;
-                    }
-
-                    if (ctx->cursor >= ctx->data_len) return CND_ERR_OOB; 
+                    // Cut off by the end of the data, or longer than allowed
+                    if (!found) return (remaining <= max_len) ? CND_ERR_OOB : CND_ERR_VALIDATION;
+                    
+                    len = (uint8_t*)found - (ctx->data_buffer + ctx->cursor);
+                    ctx->cursor += len;
                     
                     const char* ptr = (const char*)(ctx->data_buffer + start);
                     SYNC_IP();
-- 
2.43.0


From a2b9e9216242c078d71dc87da67368392b892aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:54 +0000
Subject: [PATCH 08/36] fix: a missing optional field is not validated, keeps
 its reported type, and can be of any kind

---
 src/vm/vm_exec.c | 143 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 121 insertions(+), 22 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 58cb0a2..f04a689 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -115,6 +115,24 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     }
 }
 
+// --- Optional Fields ---
+
+// The data ended before an optional field (only input can be incomplete)
+#define OPTIONAL_MISSING() (ctx->is_next_optional && ctx->mode == CND_MODE_DECODE)
+
+// Reports a missing field to the host as zero / empty
+static cnd_error_t report_missing(cnd_vm_ctx* ctx, uint16_t key, uint8_t opcode) {
+    // Strings: hosts read the length prefix in front of the content
+    uint64_t zero[2] = {0, 0};
+    void* ptr = &zero[1];
+    
+    if (ctx->trans_type == CND_TRANS_SCALE_F64 || ctx->trans_type == CND_TRANS_POLY || ctx->trans_type == CND_TRANS_SPLINE) opcode = OP_IO_F64;
+    else if (ctx->trans_type != CND_TRANS_NONE) opcode = OP_IO_I64;
+    ctx->trans_type = CND_TRANS_NONE;
+    
+    return ctx->io_callback(ctx, key, opcode, ptr);
+}
+
 // --- Helpers / Macros to reduce repeated IO case code ---
 // HANDLE_PRIMITIVE(size, ctype, READ_EXPR, WRITE_EXPR)
 //   - size: number of bytes this IO consumes
@@ -124,11 +142,11 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
 #define HANDLE_PRIMITIVE(size, ctype, READ_EXPR, WRITE_EXPR) \
     { uint16_t key = FETCH_IL_U16(ctx); \
       if (ctx->cursor + (size) > ctx->data_len) { \
-          if (ctx->is_next_optional) { \
+          if (OPTIONAL_MISSING()) { \
+              optional_missing = true; \
               ctx->is_next_optional = false; \
-              ctype val = 0; \
               SYNC_IP(); \
-              if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+              if (report_missing(ctx, key, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               break; \
           } \
           return CND_ERR_OOB; \
@@ -208,11 +226,11 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
 #define HANDLE_FLOAT(size, ctype, int_t, READ_INT_EXPR, WRITE_INT_EXPR) \
     { uint16_t key = FETCH_IL_U16(ctx); \
       if (ctx->cursor + (size) > ctx->data_len) { \
-          if (ctx->is_next_optional) { \
+          if (OPTIONAL_MISSING()) { \
+              optional_missing = true; \
               ctx->is_next_optional = false; \
-              ctype val = 0; \
               SYNC_IP(); \
-              if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+              if (report_missing(ctx, key, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               break; \
           } \
           return CND_ERR_OOB; \
@@ -378,12 +396,17 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             WRITE_EXPR; \
             ctx->cursor += (size); \
         } else { \
-            if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
-            count = (READ_EXPR); \
-            ctx->cursor += (size); \
+            if (ctx->cursor + (size) > ctx->data_len) { \
+                if (!OPTIONAL_MISSING()) return CND_ERR_OOB; \
+                ctx->trans_type = CND_TRANS_NONE; \
+            } else { \
+                count = (READ_EXPR); \
+                ctx->cursor += (size); \
+            } \
             SYNC_IP(); \
             if (ctx->io_callback(ctx, key, opcode, &count) != CND_ERR_OK) return CND_ERR_CALLBACK; \
         } \
+        ctx->is_next_optional = false; \
         if (count > 0) { \
             SYNC_IP(); \
             if (try_optimize_byte_array(ctx, (uint32_t)count)) { RELOAD_PC(); break; } \
@@ -419,7 +442,16 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
             ctx->cursor += (size) + len; \
         } else { \
-            if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
+            if (ctx->cursor + (size) > ctx->data_len) { \
+                if (OPTIONAL_MISSING()) { \
+                    optional_missing = true; \
+                    ctx->is_next_optional = false; \
+                    SYNC_IP(); \
+                    if (report_missing(ctx, key, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+                    break; \
+                } \
+                return CND_ERR_OOB; \
+            } \
             ctype len_val = (READ_EXPR); \
             if (ctx->cursor + (size) + len_val > ctx->data_len) return CND_ERR_OOB; \
             const char* ptr = (const char*)(ctx->data_buffer + ctx->cursor + (size)); \
@@ -701,6 +733,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
     #define SYNC_IP() (ctx->ip = (size_t)(pc - ctx->program->bytecode))
     #define RELOAD_PC() (pc = ctx->program->bytecode + ctx->ip)
 
+    bool optional_missing = false; // The last field was optional and not in the data
+
     while (pc < end) {
         uint8_t opcode = *pc++;
         // printf("Opcode: %02X at IP %zu\n", opcode, (size_t)(pc - ctx->program->bytecode - 1));
@@ -713,6 +747,17 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             }
         }
 
+        if (optional_missing) {
+            // There is no value to validate
+            if (opcode == OP_RANGE_CHECK || opcode == OP_ENUM_CHECK) {
+                size_t n = 1;
+                cnd_il_instr_len(ctx->program->bytecode, ctx->program->bytecode_len, (size_t)(pc - 1 - ctx->program->bytecode), &n);
+                pc += n - 1;
+                continue;
+            }
+            optional_missing = false;
+        }
+
         switch (opcode) {
             case OP_NOOP: break;
             case OP_SET_ENDIAN_LE: ctx->endianness = CND_LE; break;
@@ -777,7 +822,16 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 else if (type == OP_IO_U64 || type == OP_IO_I64) { expected = FETCH_IL_U64(ctx); size=8; }
                 else { return CND_ERR_INVALID_OP; }
                 
-                if (ctx->cursor + size > ctx->data_len) return CND_ERR_OOB;
+                if (ctx->cursor + size > ctx->data_len) {
+                    if (OPTIONAL_MISSING()) {
+                        ctx->is_next_optional = false;
+                        SYNC_IP();
+                        if (report_missing(ctx, key, type) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                        break;
+                    }
+                    return CND_ERR_OOB;
+                }
+                ctx->is_next_optional = false;
                 
                 if (ctx->mode == CND_MODE_ENCODE) {
                     if (size == 1) write_u8(ctx->data_buffer + ctx->cursor, (uint8_t)expected);
@@ -874,9 +928,13 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t xorout = FETCH_IL_U16(ctx);
                 uint8_t flags = FETCH_IL_U8(ctx);
                 
-                uint32_t crc = calc_crc(ctx->data_buffer, ctx->cursor, poly, init, xorout, flags, 16);
+                if (ctx->cursor + 2 > ctx->data_len) {
+                    if (OPTIONAL_MISSING()) { ctx->is_next_optional = false; break; }
+                    return CND_ERR_OOB;
+                }
+                ctx->is_next_optional = false;
                 
-                if (ctx->cursor + 2 > ctx->data_len) return CND_ERR_OOB;
+                uint32_t crc = calc_crc(ctx->data_buffer, ctx->cursor, poly, init, xorout, flags, 16);
                 
                 if (ctx->mode == CND_MODE_ENCODE) {
                     write_u16(ctx->data_buffer + ctx->cursor, (uint16_t)crc, ctx->endianness);
@@ -894,9 +952,13 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint32_t xorout = FETCH_IL_U32(ctx);
                 uint8_t flags = FETCH_IL_U8(ctx);
                 
-                uint32_t crc = calc_crc(ctx->data_buffer, ctx->cursor, poly, init, xorout, flags, 32);
+                if (ctx->cursor + 4 > ctx->data_len) {
+                    if (OPTIONAL_MISSING()) { ctx->is_next_optional = false; break; }
+                    return CND_ERR_OOB;
+                }
+                ctx->is_next_optional = false;
                 
-                if (ctx->cursor + 4 > ctx->data_len) return CND_ERR_OOB;
+                uint32_t crc = calc_crc(ctx->data_buffer, ctx->cursor, poly, init, xorout, flags, 32);
                 
                 if (ctx->mode == CND_MODE_ENCODE) {
                     write_u32(ctx->data_buffer + ctx->cursor, crc, ctx->endianness);
@@ -963,11 +1025,11 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_BOOL: {
                 uint16_t key = FETCH_IL_U16(ctx);
                 if (ctx->cursor + 1 > ctx->data_len) {
-                    if (ctx->is_next_optional) {
+                    if (OPTIONAL_MISSING()) {
+                        optional_missing = true;
                         ctx->is_next_optional = false;
-                        uint8_t val = 0;
                         SYNC_IP();
-                        if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                        if (report_missing(ctx, key, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK;
                         break;
                     }
                     return CND_ERR_OOB;
@@ -993,7 +1055,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_F64: HANDLE_FLOAT(8, double, uint64_t, read_u64(ctx->data_buffer + ctx->cursor, ctx->endianness), write_u64(ctx->data_buffer + ctx->cursor, t, ctx->endianness));
 
             // ... Category C (Bitfields) ...
-            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if(!bits_available(ctx,b)) return CND_ERR_OOB; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
+            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if(!bits_available(ctx,b)) { if(OPTIONAL_MISSING()){ optional_missing=true; ctx->is_next_optional=false; SYNC_IP(); if(report_missing(ctx,k,opcode)) return CND_ERR_CALLBACK; break; } return CND_ERR_OOB; } ctx->is_next_optional=false; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
             
             case OP_ENTER_BIT_MODE: {
                 // No-op for now
@@ -1025,7 +1087,17 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t k=FETCH_IL_U16(ctx); 
                 uint8_t b=FETCH_IL_U8(ctx); 
                 int64_t v=0; 
-                if(!bits_available(ctx,b)) return CND_ERR_OOB;
+                if(!bits_available(ctx,b)) {
+                    if (OPTIONAL_MISSING()) {
+                        optional_missing = true;
+                        ctx->is_next_optional = false;
+                        SYNC_IP();
+                        if (report_missing(ctx, k, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                        break;
+                    }
+                    return CND_ERR_OOB;
+                }
+                ctx->is_next_optional = false;
                 if(ctx->mode==CND_MODE_ENCODE){ 
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
@@ -1041,7 +1113,17 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_BIT_BOOL: {
                 uint16_t k = FETCH_IL_U16(ctx);
                 uint8_t v = 0;
-                if (!bits_available(ctx, 1)) return CND_ERR_OOB;
+                if (!bits_available(ctx, 1)) {
+                    if (OPTIONAL_MISSING()) {
+                        optional_missing = true;
+                        ctx->is_next_optional = false;
+                        SYNC_IP();
+                        if (report_missing(ctx, k, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                        break;
+                    }
+                    return CND_ERR_OOB;
+                }
+                ctx->is_next_optional = false;
                 if (ctx->mode == CND_MODE_ENCODE) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -1096,6 +1178,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     ctx->data_buffer[ctx->cursor] = 0x00; // Null terminator
                     ctx->cursor++;
                 } else {
+                    if (ctx->cursor >= ctx->data_len && OPTIONAL_MISSING()) {
+                        optional_missing = true;
+                        ctx->is_next_optional = false;
+                        SYNC_IP();
+                        if (report_missing(ctx, key, opcode) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                        break;
+                    }
+                    
                     size_t start = ctx->cursor;
                     size_t len = 0;
                     
@@ -1133,6 +1223,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t key = FETCH_IL_U16(ctx);
                 uint32_t count = FETCH_IL_U32(ctx);
                 // printf("VM_DEBUG: Calling callback for ARR_FIXED (Key %d)\n", key);
+                if (ctx->cursor >= ctx->data_len && OPTIONAL_MISSING()) count = 0;
+                ctx->is_next_optional = false;
                 if (ctx->mode == CND_MODE_ENCODE) {
                      // Notify host about array start so it can push context
                      // We should probably pass u32, but for now let's cast or ensure callback handles it.
@@ -1161,6 +1253,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_ARR_EOF: {
                 uint16_t key = FETCH_IL_U16(ctx);
                 (void)key; // Unused for now
+                ctx->is_next_optional = false;
                 
                 SYNC_IP();
 
@@ -1194,6 +1287,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 if (count_val > 0xFFFFFFFF) return CND_ERR_ARITHMETIC;
                 uint32_t count = (uint32_t)count_val;
+                if (ctx->cursor >= ctx->data_len && OPTIONAL_MISSING()) count = 0;
+                ctx->is_next_optional = false;
                 
                 SYNC_IP();
                 if (ctx->io_callback(ctx, key, OP_ARR_DYNAMIC, &count) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -1482,7 +1577,11 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     else if (type == OP_IO_U64 || type == OP_IO_I64 || type == OP_IO_F64) size = 8;
                     else return CND_ERR_INVALID_OP;
                     
-                    if (ctx->cursor + size > ctx->data_len) return CND_ERR_OOB;
+                    if (ctx->cursor + size > ctx->data_len) {
+                        if (OPTIONAL_MISSING()) { ctx->is_next_optional = false; break; }
+                        return CND_ERR_OOB;
+                    }
+                    ctx->is_next_optional = false;
                     
                     uint64_t bin_val = 0;
                     if (size == 1) bin_val = read_u8(ctx->data_buffer + ctx->cursor);
-- 
2.43.0


From 59d05e7c32ad5c67aa473cf4fd7cb6ca068221f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 09/36] fix: VM arithmetic is defined for every operand,
 immediates are bounds-checked, SWAP swaps, decoding writes nothing

---
 src/vm/vm_exec.c | 153 +++++++++++++++++++++++++----------------------
 1 file changed, 82 insertions(+), 71 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index f04a689..2836bdb 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -95,26 +95,56 @@ static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
     return x;
 }
 
+// Integer transforms wrap around like the unsigned types they are stored in
+static inline int64_t vm_math_idiv(int64_t a, int64_t b) {
+    if (b == 0) return a;
+    if (b == -1) return (int64_t)(0 - (uint64_t)a);
+    return a / b;
+}
+
 static inline int64_t vm_math_int_to_eng(cnd_vm_ctx* ctx, int64_t raw) {
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return raw + ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return raw - ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return raw * ctx->trans_i_val;
-        case CND_TRANS_DIV_I64: return (ctx->trans_i_val != 0) ? raw / ctx->trans_i_val : raw;
+        case CND_TRANS_ADD_I64: return (int64_t)((uint64_t)raw + (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_SUB_I64: return (int64_t)((uint64_t)raw - (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_MUL_I64: return (int64_t)((uint64_t)raw * (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_DIV_I64: return vm_math_idiv(raw, ctx->trans_i_val);
         default: return raw;
     }
 }
 
 static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return eng - ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return eng + ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return (ctx->trans_i_val != 0) ? eng / ctx->trans_i_val : eng;
-        case CND_TRANS_DIV_I64: return eng * ctx->trans_i_val;
+        case CND_TRANS_ADD_I64: return (int64_t)((uint64_t)eng - (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_SUB_I64: return (int64_t)((uint64_t)eng + (uint64_t)ctx->trans_i_val);
+        case CND_TRANS_MUL_I64: return vm_math_idiv(eng, ctx->trans_i_val);
+        case CND_TRANS_DIV_I64: return (int64_t)((uint64_t)eng * (uint64_t)ctx->trans_i_val);
         default: return eng;
     }
 }
 
+static inline bool vm_trans_is_float(const cnd_vm_ctx* ctx) {
+    return ctx->trans_type == CND_TRANS_SCALE_F64 || ctx->trans_type == CND_TRANS_POLY || ctx->trans_type == CND_TRANS_SPLINE;
+}
+
+static inline double vm_math_to_eng(cnd_vm_ctx* ctx, double raw) {
+    if (ctx->trans_type == CND_TRANS_POLY) return vm_math_poly_eval(ctx, raw);
+    if (ctx->trans_type == CND_TRANS_SPLINE) return vm_math_spline_eval(ctx, raw);
+    return raw * ctx->trans_f_factor + ctx->trans_f_offset;
+}
+
+static inline double vm_math_to_raw(cnd_vm_ctx* ctx, double eng) {
+    if (ctx->trans_type == CND_TRANS_POLY) return vm_math_poly_solve(ctx, eng);
+    if (ctx->trans_type == CND_TRANS_SPLINE) return vm_math_spline_solve(ctx, eng);
+    return (eng - ctx->trans_f_offset) / ctx->trans_f_factor;
+}
+
+// True if `v`, cut to an integer, can be stored in `size` bytes
+static inline bool vm_math_fits(double v, int size, bool is_signed) {
+    double limit = 1.0; // 2 ^ (number of value bits)
+    for (int i = is_signed ? 1 : 0; i < size * 8; i++) limit *= 2.0;
+    return is_signed ? (v > -limit - 1.0 || v == -limit) && v < limit : v > -1.0 && v < limit;
+}
+
 // --- Optional Fields ---
 
 // The data ended before an optional field (only input can be incomplete)
@@ -152,42 +182,18 @@ static cnd_error_t report_missing(cnd_vm_ctx* ctx, uint16_t key, uint8_t opcode)
           return CND_ERR_OOB; \
       } \
       if (ctx->trans_type != CND_TRANS_NONE) { \
-          if (ctx->trans_type == CND_TRANS_SCALE_F64) { \
+          if (vm_trans_is_float(ctx)) { \
               double eng_val = 0; \
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor); \
+                  double raw_val = vm_math_to_raw(ctx, eng_val); \
+                  if (!vm_math_fits(raw_val, (size), (ctype)-1 < (ctype)1)) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)raw_val; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
-                  eng_val = (double)raw * ctx->trans_f_factor + ctx->trans_f_offset; \
-                  SYNC_IP(); \
-                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-              } \
-          } else if (ctx->trans_type == CND_TRANS_POLY) { \
-              double eng_val = 0; \
-              if (ctx->mode == CND_MODE_ENCODE) { \
-                  SYNC_IP(); \
-                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_poly_solve(ctx, eng_val); \
-                  WRITE_EXPR; \
-              } else { \
-                  ctype raw = (READ_EXPR); \
-                  eng_val = vm_math_poly_eval(ctx, (double)raw); \
-                  SYNC_IP(); \
-                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-              } \
-          } else if (ctx->trans_type == CND_TRANS_SPLINE) { \
-              double eng_val = 0; \
-              if (ctx->mode == CND_MODE_ENCODE) { \
-                  SYNC_IP(); \
-                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_spline_solve(ctx, eng_val); \
-                  WRITE_EXPR; \
-              } else { \
-                  ctype raw = (READ_EXPR); \
-                  eng_val = vm_math_spline_eval(ctx, (double)raw); \
+                  eng_val = vm_math_to_eng(ctx, (double)raw); \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
@@ -236,16 +242,16 @@ static cnd_error_t report_missing(cnd_vm_ctx* ctx, uint16_t key, uint8_t opcode)
           return CND_ERR_OOB; \
       } \
       if (ctx->trans_type != CND_TRANS_NONE) { \
-          if (ctx->trans_type == CND_TRANS_SCALE_F64) { \
+          if (vm_trans_is_float(ctx)) { \
               double eng_val = 0; \
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor); \
+                  ctype val = (ctype)vm_math_to_raw(ctx, eng_val); \
                   int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
               } else { \
                   int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
-                  eng_val = (double)val * ctx->trans_f_factor + ctx->trans_f_offset; \
+                  eng_val = vm_math_to_eng(ctx, (double)val); \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
@@ -254,27 +260,12 @@ static cnd_error_t report_missing(cnd_vm_ctx* ctx, uint16_t key, uint8_t opcode)
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  int64_t raw64 = eng_val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: raw64 *= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
-                  ctype val = (ctype)raw64; \
+                  ctype val = (ctype)vm_math_int_to_raw(ctx, eng_val); \
                   int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
               } else { \
                   int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
-                  int64_t raw64 = (int64_t)val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: raw64 *= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
-                  eng_val = raw64; \
+                  if (!vm_math_fits((double)val, 8, true)) return CND_ERR_ARITHMETIC; \
+                  eng_val = vm_math_int_to_eng(ctx, (int64_t)val); \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
@@ -305,6 +296,7 @@ static cnd_error_t report_missing(cnd_vm_ctx* ctx, uint16_t key, uint8_t opcode)
         if (val < min || val > max) return CND_ERR_VALIDATION; \
     }
 
+// A NaN is outside every range
 #define CHECK_RANGE_FLOAT(size, ctype, int_type, IL_READ, BUF_READ) \
     { \
         int_type imin = (IL_READ); \
@@ -316,7 +308,7 @@ static cnd_error_t report_missing(cnd_vm_ctx* ctx, uint16_t key, uint8_t opcode)
         int_type ival = (BUF_READ); \
         ctype val; \
         memcpy(&val, &ival, sizeof(ctype)); \
-        if (val < min || val > max) return CND_ERR_VALIDATION; \
+        if (!(val >= min && val <= max)) return CND_ERR_VALIDATION; \
     }
 
 // --- Loop Stack Helpers ---
@@ -686,6 +678,12 @@ static inline cnd_error_t stack_pop(cnd_vm_ctx* ctx, uint64_t* val) {
     uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
     if (stack_push(ctx, a OP b) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
 
+// Helper for shifts (every bit is gone after 64 places)
+#define SHIFT_OP(OP) \
+    uint64_t b; if (stack_pop(ctx, &b) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
+    uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
+    if (stack_push(ctx, b < 64 ? (a OP b) : 0) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+
 // Helper for unary operations
 #define UNARY_OP(OP) \
     uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
@@ -802,10 +800,12 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 if (ctx->cursor + size > ctx->data_len) return CND_ERR_OOB;
                 
-                if (size == 1) write_u8(ctx->data_buffer + ctx->cursor, (uint8_t)val);
-                else if (size == 2) write_u16(ctx->data_buffer + ctx->cursor, (uint16_t)val, ctx->endianness);
-                else if (size == 4) write_u32(ctx->data_buffer + ctx->cursor, (uint32_t)val, ctx->endianness);
-                else if (size == 8) write_u64(ctx->data_buffer + ctx->cursor, val, ctx->endianness);
+                if (ctx->mode == CND_MODE_ENCODE) { // The input of a decode is never modified
+                    if (size == 1) write_u8(ctx->data_buffer + ctx->cursor, (uint8_t)val);
+                    else if (size == 2) write_u16(ctx->data_buffer + ctx->cursor, (uint16_t)val, ctx->endianness);
+                    else if (size == 4) write_u32(ctx->data_buffer + ctx->cursor, (uint32_t)val, ctx->endianness);
+                    else if (size == 8) write_u64(ctx->data_buffer + ctx->cursor, val, ctx->endianness);
+                }
                 
                 ctx->cursor += size;
                 break;
@@ -864,6 +864,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 bool found = false;
                 
                 #define CHECK_ENUM(size, ctype, READ_EXPR) \
+                    if (ctx->cursor < size) return CND_ERR_OOB; \
+                    if ((size_t)(end - pc) / size < count) return CND_ERR_OOB; \
                     ctype actual = (READ_EXPR); \
                     for (uint16_t i = 0; i < count; i++) { \
                         ctype val = 0; \
@@ -984,21 +986,21 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
 
             case OP_TRANS_POLY: {
                 uint8_t count = FETCH_IL_U8(ctx);
+                if ((size_t)(end - pc) < (size_t)count * 8) return CND_ERR_OOB;
                 ctx->trans_type = CND_TRANS_POLY;
                 ctx->trans_poly_count = count;
                 ctx->trans_poly_data = pc;
                 pc += (count * 8);
-                if (pc > end) return CND_ERR_OOB;
                 break;
             }
 
             case OP_TRANS_SPLINE: {
                 uint8_t count = FETCH_IL_U8(ctx);
+                if ((size_t)(end - pc) < (size_t)count * 16) return CND_ERR_OOB;
                 ctx->trans_type = CND_TRANS_SPLINE;
                 ctx->trans_spline_count = count;
                 ctx->trans_spline_data = pc;
                 pc += (count * 2 * 8); // 2 doubles per point
-                if (pc > end) return CND_ERR_OOB;
                 break;
             }
 
@@ -1437,10 +1439,10 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     uint64_t index = disc_val - min_val;
                     // Offset is at table_start + 8 + 8 + 4 + index * 4
                     // We are currently at table_start + 20 (ctx->ip)
-                    size_t offset_loc = ctx->ip + (size_t)(index * 4);
                     
                     // Check bounds for the offset entry
-                    if (offset_loc + 4 > ctx->program->bytecode_len) return CND_ERR_OOB;
+                    if (index >= (ctx->program->bytecode_len - ctx->ip) / 4) return CND_ERR_OOB;
+                    size_t offset_loc = ctx->ip + (size_t)(index * 4);
                     
                     target_off = (int32_t)peek_il_u32(ctx, offset_loc);
                 }
@@ -1542,6 +1544,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 break;
             }
 
+            case OP_SWAP: {
+                if (ctx->expr_sp < 2) return CND_ERR_STACK_UNDERFLOW;
+                uint64_t val = ctx->expr_stack[ctx->expr_sp - 1];
+                ctx->expr_stack[ctx->expr_sp - 1] = ctx->expr_stack[ctx->expr_sp - 2];
+                ctx->expr_stack[ctx->expr_sp - 2] = val;
+                break;
+            }
+
             case OP_EMIT: {
                 uint8_t type = FETCH_IL_U8(ctx);
                 uint64_t val;
@@ -1636,8 +1646,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_NEG: {
                 uint64_t a;
                 if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
-                // Cast to signed to avoid C4146 (unary minus on unsigned)
-                if (stack_push(ctx, (uint64_t)(-(int64_t)a)) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+                // Two's complement (and avoids C4146, unary minus on unsigned)
+                if (stack_push(ctx, 0 - a) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
             }
 
@@ -1707,6 +1717,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_FTOI: {
                 uint64_t a_bits; if (stack_pop(ctx, &a_bits) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
                 double f; memcpy(&f, &a_bits, 8);
+                if (!(f >= -9223372036854775808.0 && f < 9223372036854775808.0)) return CND_ERR_ARITHMETIC;
                 int64_t i = (int64_t)f;
                 if (stack_push(ctx, (uint64_t)i) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
@@ -1725,8 +1736,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_BIT_OR:  { BINARY_OP(|); break; }
             case OP_BIT_XOR: { BINARY_OP(^); break; }
             case OP_BIT_NOT: { UNARY_OP(~); break; }
-            case OP_SHL:     { BINARY_OP(<<); break; }
-            case OP_SHR:     { BINARY_OP(>>); break; }
+            case OP_SHL:     { SHIFT_OP(<<); break; }
+            case OP_SHR:     { SHIFT_OP(>>); break; }
 
             // Comparison
             case OP_EQ:  { BINARY_OP(==); break; }
-- 
2.43.0


From aaf5bc06cbd2f84182024dd5bab605c471c1afbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 10/36] fix: program images with an unterminated string table
 are rejected; 32-bit reads shift unsigned values

---
 src/vm/vm_exec.c     | 17 +++++++++++++----
 src/vm/vm_internal.h | 12 +++++-------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 2836bdb..1ebe787 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -466,7 +466,7 @@ static int64_t sign_extend(uint64_t val, uint8_t bits) {
 static uint32_t reflect(uint32_t val, int bits) {
     uint32_t res = 0;
     for (int i = 0; i < bits; i++) {
-        if (val & (1 << i)) res |= (1 << (bits - 1 - i));
+        if (val & (1u << i)) res |= (1u << (bits - 1 - i));
     }
     return res;
 }
@@ -594,11 +594,19 @@ cnd_error_t cnd_program_load_il(cnd_program* program, const uint8_t* image, size
     if (image[5] != 1) return CND_ERR_INVALID_OP; // Version check
 
     uint16_t str_count = image[6] | (image[7] << 8);
-    uint32_t str_offset = image[8] | (image[9] << 8) | (image[10] << 16) | (image[11] << 24);
-    uint32_t bc_offset = image[12] | (image[13] << 8) | (image[14] << 16) | (image[15] << 24);
+    uint32_t str_offset = cnd_il_get_u32(image + 8);
+    uint32_t bc_offset = cnd_il_get_u32(image + 12);
 
     if (str_offset > len || bc_offset > len) return CND_ERR_OOB;
     
+    // Every string must be terminated inside the image, or lookups would run past its end
+    size_t str_pos = str_offset;
+    for (uint16_t i = 0; i < str_count; i++) {
+        const uint8_t* nul = (const uint8_t*)memchr(image + str_pos, 0, len - str_pos);
+        if (!nul) return CND_ERR_OOB;
+        str_pos = (size_t)(nul - image) + 1;
+    }
+    
     program->string_table = (const char*)(image + str_offset);
     program->string_count = str_count;
     program->bytecode = image + bc_offset;
@@ -725,7 +733,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
     #undef FETCH_IL_U16
     #define FETCH_IL_U8(c) ((pc < end) ? *pc++ : 0)
     #define FETCH_IL_U16(c) ((pc + 2 <= end) ? (pc += 2, (uint16_t)(pc[-2] | (pc[-1] << 8))) : 0)
-    #define FETCH_IL_U32(c) ((pc + 4 <= end) ? (pc += 4, (uint32_t)(pc[-4] | (pc[-3] << 8) | (pc[-2] << 16) | (pc[-1] << 24))) : 0)
+    #define FETCH_IL_U32(c) ((pc + 4 <= end) ? (pc += 4, (uint32_t)(pc[-4] | (pc[-3] << 8) | (pc[-2] << 16) | ((uint32_t)pc[-1] << 24))) : 0)
     #define FETCH_IL_U64(c) ((pc + 8 <= end) ? (pc += 8, ((uint64_t)pc[-8] | ((uint64_t)pc[-7] << 8) | ((uint64_t)pc[-6] << 16) | ((uint64_t)pc[-5] << 24) | ((uint64_t)pc[-4] << 32) | ((uint64_t)pc[-3] << 40) | ((uint64_t)pc[-2] << 48) | ((uint64_t)pc[-1] << 56))) : 0)
     
     #define SYNC_IP() (ctx->ip = (size_t)(pc - ctx->program->bytecode))
@@ -1558,6 +1566,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 if (stack_pop(ctx, &val) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
                 
                 if (ctx->mode == CND_MODE_ENCODE) {
+                    ctx->is_next_optional = false;
                     int size = 0;
                     if (type == OP_IO_U8 || type == OP_IO_I8 || type == OP_IO_BOOL) size = 1;
                     else if (type == OP_IO_U16 || type == OP_IO_I16) size = 2;
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index 5a8791d..fab3fb6 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -21,10 +21,8 @@ static inline uint8_t read_il_u8(cnd_vm_ctx* ctx) {
 
 static inline uint32_t read_il_u32(cnd_vm_ctx* ctx) {
     if (ctx->ip + 4 > ctx->program->bytecode_len) return 0;
-    uint32_t val = ctx->program->bytecode[ctx->ip] | 
-                   (ctx->program->bytecode[ctx->ip + 1] << 8) | 
-                   (ctx->program->bytecode[ctx->ip + 2] << 16) | 
-                   (ctx->program->bytecode[ctx->ip + 3] << 24);
+    const uint8_t* b = &ctx->program->bytecode[ctx->ip];
+    uint32_t val = b[0] | (b[1] << 8) | (b[2] << 16) | ((uint32_t)b[3] << 24);
     ctx->ip += 4;
     return val;
 }
@@ -47,7 +45,7 @@ static inline uint64_t read_il_u64(cnd_vm_ctx* ctx) {
 static inline uint32_t peek_il_u32(cnd_vm_ctx* ctx, size_t idx) {
     if (idx + 4 > ctx->program->bytecode_len) return 0;
     const uint8_t* b = ctx->program->bytecode + idx;
-    return b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
+    return b[0] | (b[1] << 8) | (b[2] << 16) | ((uint32_t)b[3] << 24);
 }
 
 // --- Instruction Layout ---
@@ -209,9 +207,9 @@ static inline uint16_t read_u16(const uint8_t* buf, cnd_endian_t endian) {
 
 static inline uint32_t read_u32(const uint8_t* buf, cnd_endian_t endian) {
     if (endian == CND_LE) {
-        return buf[0] | (buf[1] << 8) | (buf[2] << 16) | (buf[3] << 24);
+        return buf[0] | (buf[1] << 8) | (buf[2] << 16) | ((uint32_t)buf[3] << 24);
     } else {
-        return (buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3];
+        return ((uint32_t)buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3];
     }
 }
 
-- 
2.43.0


From 361526817e86e2d67ba7b42881c7584b1750d2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 11/36] fix: the verifier knows every instruction's length and
 does not read jump tables as code

---
 src/vm/vm_exec.c     |   2 +-
 src/vm/vm_internal.h |   3 +
 src/vm/vm_verify.c   | 347 ++++++++++++-------------------------------
 3 files changed, 99 insertions(+), 253 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 1ebe787..e752ace 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -532,7 +532,7 @@ static uint32_t calc_crc(const uint8_t* data, size_t len, uint32_t poly, uint32_
                 else crc = (crc << 1) & 0xFFFF;
             }
         } else { // 32
-            crc ^= (uint32_t)(octet << 24);
+            crc ^= ((uint32_t)octet << 24);
             for (int j = 0; j < 8; j++) {
                 if (crc & 0x80000000) crc = (crc << 1) ^ poly;
                 else crc <<= 1;
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index fab3fb6..8135f58 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -50,6 +50,9 @@ static inline uint32_t peek_il_u32(cnd_vm_ctx* ctx, size_t idx) {
 
 // --- Instruction Layout ---
 
+// Switches inside the cases of other switches
+#define CND_MAX_SWITCH_DEPTH 64
+
 typedef enum {
     CND_INSTR_OK = 0,
     CND_INSTR_UNKNOWN,   // No such opcode
diff --git a/src/vm/vm_verify.c b/src/vm/vm_verify.c
index 0800f2f..9ae33cd 100644
--- a/src/vm/vm_verify.c
+++ b/src/vm/vm_verify.c
@@ -1,279 +1,122 @@
 #include "concordia.h"
 #include "vm_internal.h"
 
+// Jump tables are data in the instruction stream. They follow the case bodies, so the
+// ones of nested switches are pending at the same time.
+typedef struct {
+    size_t start[CND_MAX_SWITCH_DEPTH];
+    size_t end[CND_MAX_SWITCH_DEPTH];
+    size_t count;
+} pending_tables;
+
+// Jump targets are relative to the end of the instruction; the end of the program is
+// a valid target (execution stops there).
+static bool target_valid(size_t base, uint32_t offset, size_t len)
+{
+    int64_t target = (int64_t)base + (int32_t)offset;
+    return target >= 0 && (uint64_t)target <= len;
+}
+
+static cnd_error_t verify_switch(const uint8_t* bc, size_t len, size_t ip, pending_tables* tables)
+{
+    size_t base = ip + 7;
+    size_t start, size;
+    if (!cnd_il_switch_table(bc, len, ip, &start, &size)) return CND_ERR_OOB;
+
+    if (bc[ip] == OP_SWITCH) {
+        // Count(2) + Default(4) + [Value(8) + Offset(4)]*
+        size_t count = (size - 6) / 12;
+        if (!target_valid(base, cnd_il_get_u32(bc + start + 2), len)) return CND_ERR_OOB;
+        for (size_t i = 0; i < count; i++) {
+            if (!target_valid(base, cnd_il_get_u32(bc + start + 6 + i * 12 + 8), len)) return CND_ERR_OOB;
+        }
+    } else {
+        // Min(8) + Max(8) + Default(4) + [Offset(4)]*
+        if (cnd_il_get_u64(bc + start + 8) < cnd_il_get_u64(bc + start)) return CND_ERR_VALIDATION;
+        size_t count = (size - 20) / 4;
+        if (!target_valid(base, cnd_il_get_u32(bc + start + 16), len)) return CND_ERR_OOB;
+        for (size_t i = 0; i < count; i++) {
+            if (!target_valid(base, cnd_il_get_u32(bc + start + 20 + i * 4), len)) return CND_ERR_OOB;
+        }
+    }
+
+    if (tables->count == CND_MAX_SWITCH_DEPTH) return CND_ERR_STACK_OVERFLOW;
+    tables->start[tables->count] = start;
+    tables->end[tables->count] = start + size;
+    tables->count++;
+    return CND_ERR_OK;
+}
+
+// Moves past the tables that begin at `ip`. Fails if `ip` is in the middle of one.
+static cnd_error_t skip_tables(pending_tables* tables, size_t* ip)
+{
+    size_t i = 0;
+    while (i < tables->count) {
+        if (tables->start[i] > *ip) { i++; continue; }
+        if (tables->start[i] < *ip && tables->end[i] != *ip) return CND_ERR_INVALID_OP;
+        *ip = tables->end[i];
+        tables->count--;
+        tables->start[i] = tables->start[tables->count];
+        tables->end[i] = tables->end[tables->count];
+        i = 0;
+    }
+    return CND_ERR_OK;
+}
+
 cnd_error_t cnd_verify_program(const cnd_program* program)
 {
     if (!program || !program->bytecode) {
         return CND_ERR_OOB;
     }
 
-    uint32_t ip = 0;
-    uint32_t len = (uint32_t)program->bytecode_len;
+    size_t ip = 0;
+    size_t len = program->bytecode_len;
     const uint8_t* bc = program->bytecode;
+    pending_tables tables;
+    tables.count = 0;
 
     while (ip < len) {
-        uint8_t opcode = bc[ip];
-        
-        // Get instruction length
-        uint32_t instr_len = 1; // Opcode itself
-        
-        // Add argument lengths based on opcode
-        switch (opcode) {
-            // 0 args
-            case OP_NOOP:
-            case OP_SET_ENDIAN_LE:
-            case OP_SET_ENDIAN_BE:
-            case OP_ENTER_STRUCT:
-            case OP_EXIT_STRUCT:
-            case OP_META_VERSION:
-            case OP_META_NAME:
-            case OP_ARR_END:
-            case OP_ARR_EOF:
-            case OP_ARR_DYNAMIC:
-            case OP_POP:
-            case OP_SWAP:
-            case OP_DUP:
-            case OP_EMIT:
-            case OP_ADD:
-            case OP_SUB:
-            case OP_MUL:
-            case OP_DIV:
-            case OP_MOD:
-            case OP_NEG:
-            case OP_FADD:
-            case OP_FSUB:
-            case OP_FMUL:
-            case OP_FDIV:
-            case OP_FNEG:
-            case OP_SIN:
-            case OP_COS:
-            case OP_TAN:
-            case OP_SQRT:
-            case OP_POW:
-            case OP_LOG:
-            case OP_ABS:
-            case OP_ITOF:
-            case OP_FTOI:
-            case OP_EQ_F:
-            case OP_NEQ_F:
-            case OP_GT_F:
-            case OP_LT_F:
-            case OP_GTE_F:
-            case OP_LTE_F:
-            case OP_BIT_AND:
-            case OP_BIT_OR:
-            case OP_BIT_XOR:
-            case OP_BIT_NOT:
-            case OP_SHL:
-            case OP_SHR:
-            case OP_EQ:
-            case OP_NEQ:
-            case OP_GT:
-            case OP_LT:
-            case OP_GTE:
-            case OP_LTE:
-            case OP_LOG_AND:
-            case OP_LOG_OR:
-            case OP_LOG_NOT:
-            case OP_LOAD_CTX:
-            case OP_STORE_CTX:
-            case OP_MARK_OPTIONAL:
-            case OP_ENTER_BIT_MODE:
-            case OP_EXIT_BIT_MODE:
-                instr_len = 1;
-                break;
+        cnd_error_t err = skip_tables(&tables, &ip);
+        if (err != CND_ERR_OK) return err;
+        if (ip >= len) break;
 
-            // 1 byte arg
-            case OP_ALIGN_PAD:
-            case OP_ALIGN_FILL:
-                instr_len = 2;
-                break;
+        uint8_t opcode = bc[ip];
+        size_t instr_len = 1;
+        switch (cnd_il_instr_len(bc, len, ip, &instr_len)) {
+            case CND_INSTR_UNKNOWN: return CND_ERR_INVALID_OP;
+            case CND_INSTR_TRUNCATED: return CND_ERR_OOB;
+            default: break;
+        }
 
-            // 2 byte arg (Key ID)
-            case OP_CTX_QUERY:
-            case OP_IO_U8:
-            case OP_IO_U16:
-            case OP_IO_U32:
-            case OP_IO_U64:
-            case OP_IO_I8:
-            case OP_IO_I16:
-            case OP_IO_I32:
-            case OP_IO_I64:
-            case OP_IO_F32:
-            case OP_IO_F64:
-            case OP_IO_BOOL:
-            case OP_IO_BIT_U:
-            case OP_IO_BIT_I:
-            case OP_IO_BIT_BOOL:
-            case OP_STR_PRE_U8:
-            case OP_ARR_PRE_U8:
-            case OP_STR_PRE_U16:
-            case OP_ARR_PRE_U16:
-            case OP_STR_PRE_U32:
-            case OP_ARR_PRE_U32:
-                instr_len = 3;
+        switch (opcode) {
+            case OP_JUMP:
+            case OP_JUMP_IF_NOT:
+                if (!target_valid(ip + 5, cnd_il_get_u32(bc + ip + 1), len)) return CND_ERR_OOB;
                 break;
 
-            // Special cases
-            case OP_ARR_FIXED:
-                instr_len = 7; // 1 + 2 + 4
-                break;
-                
-            case OP_STR_NULL:
-                instr_len = 5; // 1 + Key(2) + MaxLen(2)
-                break;
-                
-            case OP_RAW_BYTES:
-                instr_len = 7; // 1 + Key(2) + Count(4)
+            case OP_SWITCH:
+            case OP_SWITCH_TABLE:
+                err = verify_switch(bc, len, ip, &tables);
+                if (err != CND_ERR_OK) return err;
                 break;
 
-            case OP_CONST_CHECK:
-            case OP_CONST_WRITE:
-                // Key(2) + Type(1) + Value(8)
-                instr_len = 1 + 2 + 1 + 8;
+            // Typed arguments: the same types the VM executes
+            case OP_EMIT:
+                if (cnd_il_type_size(bc[ip + 1]) == 0) return CND_ERR_INVALID_OP;
                 break;
-                
             case OP_RANGE_CHECK:
-                // Key(2) + Type(1) + Min(8) + Max(8)
-                instr_len = 1 + 2 + 1 + 8 + 8;
-                break;
-                
-            case OP_SCALE_LIN:
-                // Key(2) + Factor(8) + Offset(8)
-                instr_len = 1 + 2 + 8 + 8;
+                if (cnd_il_type_size(bc[ip + 1]) == 0 || bc[ip + 1] == OP_IO_BOOL) return CND_ERR_INVALID_OP;
                 break;
-                
-            case OP_CRC_16:
-            case OP_CRC_32:
-                // Key(2) + StartOffset(4) + Length(4) + Poly(4) + Init(4) + XorOut(4) + RefIn(1) + RefOut(1)
-                // This is a guess based on typical CRC params, but let's assume it's handled or skip detailed check.
-                // Actually, let's just check opcode existence.
-                // If we don't know length, we can't verify.
-                // Assuming standard CRC32 params: 2+4+4+4+4+4+1+1 = 24 bytes?
-                // Let's assume 1 for now and hope it's not used in tests or fix later.
-                // Wait, tests use CRC16/32.
-                // Let's check vm_exec.c for CRC length.
-                // But I can't read it now.
-                // I'll assume 1 and if tests fail I'll fix.
-                instr_len = 1; 
-                break;
-
-            case OP_PUSH_IMM:
-                instr_len = 9; // 1 + 8
-                break;
-
-            case OP_JUMP:
-            case OP_JUMP_IF_NOT:
-                instr_len = 5; // 1 + Offset(4)
-                break;
-
-            case OP_SWITCH: {
-                if (ip + 7 > len) return CND_ERR_OOB;
-                // 1 (op) + 2 (key) + 4 (table_offset)
-                const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
-                
-                size_t table_start = (ip + 7) + table_rel;
-                
-                if (table_start > len) return CND_ERR_OOB;
-                
-                // Read table header: Count(2) + Default(4)
-                if (table_start + 6 > len) return CND_ERR_OOB;
-                
-                const uint8_t* t_ptr = bc + table_start;
-                uint16_t count = (uint16_t)(t_ptr[0] | (t_ptr[1] << 8));
-                
-                // Table size: 2 + 4 + count * (8 + 4)
-                uint32_t table_size = 6 + count * 12;
-                if (table_start + table_size > len) return CND_ERR_OOB;
-                
-                // Check offsets
-                // Default offset
-                const uint8_t* def_ptr = bc + table_start + 2;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
-                
-                // Target relative to code_start_ip (ip + 7)
-                int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
-                
-                // Case offsets
-                for (uint16_t i = 0; i < count; i++) {
-                    const uint8_t* case_ptr = bc + table_start + 6 + (i * 12) + 8; // Skip value(8)
-                    int32_t off = (int32_t)(case_ptr[0] | (case_ptr[1] << 8) | (case_ptr[2] << 16) | (case_ptr[3] << 24));
-                    target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
-                }
-                
-                instr_len = 7;
-                break;
-            }
-            
-            case OP_SWITCH_TABLE: {
-                if (ip + 7 > len) return CND_ERR_OOB;
-                // 1 (op) + 2 (key) + 4 (table_offset)
-                const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
-                
-                size_t table_start = (ip + 7) + table_rel;
-                
-                if (table_start > len) return CND_ERR_OOB;
-                
-                // Read table header: Min(8) + Max(8) + Default(4)
-                if (table_start + 20 > len) return CND_ERR_OOB;
-                
-                const uint8_t* t_ptr = bc + table_start;
-                uint64_t min_val = (uint64_t)t_ptr[0] | ((uint64_t)t_ptr[1] << 8) | ((uint64_t)t_ptr[2] << 16) | ((uint64_t)t_ptr[3] << 24) |
-                                   ((uint64_t)t_ptr[4] << 32) | ((uint64_t)t_ptr[5] << 40) | ((uint64_t)t_ptr[6] << 48) | ((uint64_t)t_ptr[7] << 56);
-                uint64_t max_val = (uint64_t)t_ptr[8] | ((uint64_t)t_ptr[9] << 8) | ((uint64_t)t_ptr[10] << 16) | ((uint64_t)t_ptr[11] << 24) |
-                                   ((uint64_t)t_ptr[12] << 32) | ((uint64_t)t_ptr[13] << 40) | ((uint64_t)t_ptr[14] << 48) | ((uint64_t)t_ptr[15] << 56);
-                
-                if (max_val < min_val) return CND_ERR_VALIDATION;
-                
-                uint64_t count = max_val - min_val + 1;
-                if (count > 0xFFFFFFFF) return CND_ERR_OOB;
-                
-                uint64_t table_size_64 = 20 + count * 4;
-                if (table_size_64 > 0xFFFFFFFF) return CND_ERR_OOB;
-                uint32_t table_size = (uint32_t)table_size_64;
-                
-                if (table_start + table_size > len) return CND_ERR_OOB;
-                
-                // Check default offset
-                const uint8_t* def_ptr = bc + table_start + 16;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
-                int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
-                
-                // Check table offsets
-                for (uint64_t i = 0; i < count; i++) {
-                    const uint8_t* entry_ptr = bc + table_start + 20 + (i * 4);
-                    int32_t off = (int32_t)(entry_ptr[0] | (entry_ptr[1] << 8) | (entry_ptr[2] << 16) | (entry_ptr[3] << 24));
-                    target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
-                }
-                
-                instr_len = 7;
+            case OP_ENUM_CHECK:
+            case OP_CONST_WRITE:
+            case OP_CONST_CHECK: {
+                uint8_t type = bc[ip + (opcode == OP_CONST_CHECK ? 3 : 1)];
+                if (cnd_il_type_size(type) == 0 || type == OP_IO_BOOL || type == OP_IO_F32 || type == OP_IO_F64) return CND_ERR_INVALID_OP;
+                if (opcode == OP_CONST_WRITE && type >= OP_IO_I8 && type <= OP_IO_I64) return CND_ERR_INVALID_OP;
                 break;
             }
-
             default:
-                return CND_ERR_INVALID_OP;
-        }
-
-        // Check if instruction fits
-        if (ip + instr_len > len) {
-            return CND_ERR_OOB;
-        }
-
-        // Additional checks for JMP
-        if (opcode == OP_JUMP || opcode == OP_JUMP_IF_NOT) {
-            const uint8_t* ptr = bc + ip + 1;
-            int32_t offset = (int32_t)(ptr[0] | (ptr[1] << 8) | (ptr[2] << 16) | (ptr[3] << 24));
-            
-            int64_t target = (int64_t)ip + 5 + offset;
-            if (target < 0 || target >= len) {
-                return CND_ERR_OOB;
-            }
+                break;
         }
 
         ip += instr_len;
-- 
2.43.0


From 3b9e722cd9b939483648df66f53ae525a42401e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:47 +0000
Subject: [PATCH 12/36] fix: expressions accept unary operators, parentheses,
 hex literals with an E and subtraction without spaces

---
 src/compiler/cnd_parser.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 8e47fa3..341008f 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -41,6 +41,8 @@ static ExprType parse_grouping(Parser* p);
 ExprType parse_expression(Parser* p);
 
 static int is_float_literal(Token t) {
+    int digits = (t.length > 0 && t.start[0] == '-') ? 1 : 0;
+    if (t.length > digits + 1 && t.start[digits] == '0' && (t.start[digits + 1] == 'x' || t.start[digits + 1] == 'X')) return 0;
     for (int i = 0; i < t.length; i++) {
         if (t.start[i] == '.' || t.start[i] == 'e' || t.start[i] == 'E') return 1;
     }
@@ -48,8 +50,7 @@ static int is_float_literal(Token t) {
 }
 
 static ExprType parse_unary(Parser* p) {
-    TokenType op = p->current.type;
-    advance(p);
+    TokenType op = p->previous.type; // Already consumed
     ExprType t = parse_precedence(p, PREC_UNARY);
     switch (op) {
         case TOK_BANG: buf_push(p->target, OP_LOG_NOT); return TYPE_INT;
@@ -123,8 +124,7 @@ static ExprType parse_binary(Parser* p, ExprType left) {
 }
 
 static ExprType parse_grouping(Parser* p) {
-    advance(p); // Consume (
-    ExprType t = parse_expression(p);
+    ExprType t = parse_expression(p); // ( is already consumed
     consume(p, TOK_RPAREN, "Expect ) after expression");
     return t;
 }
@@ -159,6 +159,9 @@ static ParseRule rules[] = {
 };
 
 static ParseRule* get_rule(TokenType type) {
+    // The table ends at the last token that has a rule
+    static ParseRule no_rule = {NULL, NULL, PREC_NONE};
+    if ((size_t)type >= sizeof(rules) / sizeof(rules[0])) return &no_rule;
     return &rules[type];
 }
 
@@ -176,7 +179,14 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
 
     ExprType left = prefix_rule(p);
 
-    while (prec <= get_rule(p->current.type)->precedence) {
+    for (;;) {
+        if (p->current.type == TOK_NUMBER && p->current.start[0] == '-') {
+            // "a -1" and "a-1": after an operand the sign is an operator
+            p->current.type = TOK_MINUS;
+            p->current.length = 1;
+            p->lexer.current = p->current.start + 1;
+        }
+        if (prec > get_rule(p->current.type)->precedence) break;
         advance(p);
         ParseInfixFn infix_rule = get_rule(p->previous.type)->infix;
         left = infix_rule(p, left);
-- 
2.43.0


From aa55c2e1798ab574ad8124f2daaff85229ce04fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:25 +0000
Subject: [PATCH 13/36] fix: every instruction of a struct is renamed when it
 is nested, and string compaction follows switch tables

---
 src/compiler/cnd_internal.h |   6 +
 src/compiler/cnd_parser.c   |   8 +-
 src/compiler/cnd_utils.c    | 293 ++++++++++++------------------------
 src/compiler/cndc.c         | 243 ++++--------------------------
 4 files changed, 132 insertions(+), 418 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 820160a..ca05c62 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -135,12 +135,18 @@ typedef struct {
     char** strings;
     size_t count;
     size_t capacity;
+    int overflow; // More strings than IDs were added
 } StringTable;
 
 void strtab_init(StringTable* t);
 void strtab_free(StringTable* t);
 uint16_t strtab_add(StringTable* t, const char* start, int len);
 
+// --- Utils: Bytecode ---
+typedef void (*il_visit_fn)(uint8_t* instr, void* user);
+int il_walk(uint8_t* bc, size_t len, il_visit_fn visit, void* user);
+int il_key_offsets(uint8_t op, int offsets[2]);
+
 // Append struct bytecode with key IDs remapped to include prefix
 void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
                             const char* prefix, int prefix_len, StringTable* strtab);
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 341008f..c688bd9 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1168,15 +1168,9 @@ void parse_field(Parser* p, const char* doc) {
 
             buf_push(p->target, OP_ENTER_STRUCT); buf_push_u16(p->target, key_id);
             
-            // Get the field name for prefixing nested fields
-            char field_name[256];
-            int field_name_len = name_tok.length < 255 ? name_tok.length : 255;
-            memcpy(field_name, name_tok.start, field_name_len);
-            field_name[field_name_len] = '\0';
-            
             // Append struct bytecode with field names prefixed
             buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
-                                   field_name, field_name_len, &p->strtab);
+                                   name_tok.start, name_tok.length, &p->strtab);
             
             buf_push(p->target, OP_EXIT_STRUCT);
         } else if (edef) {
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index f54b85e..43f2917 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -1,4 +1,5 @@
 #include "cnd_internal.h"
+#include "../vm/vm_internal.h"
 
 char* cnd_canonicalize_path(const char* path) {
     if (!path) return NULL;
@@ -27,209 +28,107 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
-// Helper to get opcode instruction size (returns total bytes including opcode)
-static int get_opcode_size_and_keyid_offset(uint8_t op, int* keyid_offset) {
-    *keyid_offset = -1; // -1 means no key ID in this instruction
+// Visits the instructions of a bytecode buffer in order. Jump tables follow the bodies of
+// their switch and are skipped. Returns 0 if the bytecode is not well formed.
+int il_walk(uint8_t* bc, size_t len, il_visit_fn visit, void* user) {
+    size_t (*tables)[2] = NULL; // start and end of the tables not reached yet
+    size_t count = 0, cap = 0;
+    size_t ip = 0;
+    int ok = 1;
     
-    switch (op) {
-        case OP_NOOP:
-        case OP_SET_ENDIAN_LE:
-        case OP_SET_ENDIAN_BE:
-        case OP_EXIT_STRUCT:
-        case OP_ARR_END:
-        case OP_EXIT_BIT_MODE:
-        case OP_ENTER_BIT_MODE:
-        case OP_ADD:
-        case OP_SUB:
-        case OP_MUL:
-        case OP_DIV:
-        case OP_MOD:
-        case OP_NEG:
-        case OP_LOG_AND:
-        case OP_LOG_OR:
-        case OP_LOG_NOT:
-        case OP_BIT_AND:
-        case OP_BIT_OR:
-        case OP_BIT_XOR:
-        case OP_BIT_NOT:
-        case OP_SHL:
-        case OP_SHR:
-        case OP_EQ:
-        case OP_NEQ:
-        case OP_GT:
-        case OP_LT:
-        case OP_GTE:
-        case OP_LTE:
-        case OP_POP:
-        case OP_DUP:
-        case OP_SWAP:
-        case OP_FADD:
-        case OP_FSUB:
-        case OP_FMUL:
-        case OP_FDIV:
-        case OP_FNEG:
-        case OP_SIN:
-        case OP_COS:
-        case OP_TAN:
-        case OP_SQRT:
-        case OP_POW:
-        case OP_LOG:
-        case OP_ABS:
-        case OP_ITOF:
-        case OP_FTOI:
-        case OP_EQ_F:
-        case OP_NEQ_F:
-        case OP_GT_F:
-        case OP_LT_F:
-        case OP_GTE_F:
-        case OP_LTE_F:
-            return 1;
-            
-        case OP_ALIGN_PAD:
-        case OP_ALIGN_FILL:
-        case OP_EMIT:
-            return 2;
-            
-        // Opcodes with key_id at offset 1
-        case OP_ENTER_STRUCT:
-        case OP_META_NAME:
-        case OP_META_VERSION:
-        case OP_IO_U8:
-        case OP_IO_U16:
-        case OP_IO_U32:
-        case OP_IO_U64:
-        case OP_IO_I8:
-        case OP_IO_I16:
-        case OP_IO_I32:
-        case OP_IO_I64:
-        case OP_IO_F32:
-        case OP_IO_F64:
-        case OP_IO_BOOL:
-        case OP_IO_BIT_BOOL:
-        case OP_LOAD_CTX:
-        case OP_STORE_CTX:
-        case OP_ARR_EOF:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_IO_BIT_U:
-        case OP_IO_BIT_I:
-            *keyid_offset = 1;
-            return 4; // op + key(2) + bits(1)
-            
-        case OP_STR_NULL:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + maxlen(2)
-            
-        case OP_STR_PRE_U8:
-        case OP_STR_PRE_U16:
-        case OP_STR_PRE_U32:
-        case OP_ARR_PRE_U8:
-        case OP_ARR_PRE_U16:
-        case OP_ARR_PRE_U32:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_ARR_FIXED:
-        case OP_RAW_BYTES:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + count(4)
-            
-        case OP_ARR_DYNAMIC:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + ref_key(2)
-            
-        case OP_JUMP:
-        case OP_JUMP_IF_NOT:
-            return 5; // op + offset(4)
-            
-        case OP_PUSH_IMM:
-            return 9; // op + val(8)
-            
-        case OP_SWITCH:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + table_off(4)
-            
-        // Variable length - skip for now, struct bytecode shouldn't have these
-        case OP_CONST_CHECK:
-        case OP_CONST_WRITE:
-        case OP_RANGE_CHECK:
-        case OP_SCALE_LIN:
-        case OP_TRANS_ADD:
-        case OP_TRANS_SUB:
-        case OP_TRANS_MUL:
-        case OP_TRANS_DIV:
-        case OP_TRANS_POLY:
-        case OP_TRANS_SPLINE:
-        case OP_CRC_16:
-        case OP_CRC_32:
-        case OP_ENUM_CHECK:
-        case OP_MARK_OPTIONAL:
-        default:
-            return -1; // Unknown/variable - can't process
-    }
-}
-
-// Append struct bytecode with key IDs remapped to include prefix
-void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
-                            const char* prefix, int prefix_len, StringTable* strtab) {
-    size_t i = 0;
-    while (i < len) {
-        uint8_t op = src[i];
-        int keyid_offset;
-        int instr_size = get_opcode_size_and_keyid_offset(op, &keyid_offset);
-        
-        if (instr_size < 0 || i + instr_size > len) {
-            // Unknown opcode or would overflow - just copy rest verbatim
-            buf_append(b, src + i, len - i);
-            break;
+    while (ip < len) {
+        size_t i = 0;
+        while (i < count && tables[i][0] != ip) i++;
+        if (i < count) {
+            ip = tables[i][1];
+            memmove(tables + i, tables + i + 1, (count - i - 1) * sizeof(*tables));
+            count--;
+            continue;
         }
         
-        if (keyid_offset < 0) {
-            // No key ID to remap, just copy
-            buf_append(b, src + i, instr_size);
-        } else {
-            // Has key ID - need to remap
-            // Copy opcode byte(s) before key
-            buf_append(b, src + i, keyid_offset);
-            
-            // Read old key ID
-            uint16_t old_key = src[i + keyid_offset] | (src[i + keyid_offset + 1] << 8);
-            
-            // Look up old string
-            const char* old_name = (old_key < strtab->count) ? strtab->strings[old_key] : "";
-            int old_len = (int)strlen(old_name);
-            
-            // Build new prefixed name
-            char new_name[512];
-            if (prefix_len + 1 + old_len < 512) {
-                memcpy(new_name, prefix, prefix_len);
-                new_name[prefix_len] = '.';
-                memcpy(new_name + prefix_len + 1, old_name, old_len);
-                new_name[prefix_len + 1 + old_len] = '\0';
-            } else {
-                // Fallback - just use old name
-                memcpy(new_name, old_name, old_len + 1);
-            }
-            
-            // Add new name to strtab and get new key ID
-            uint16_t new_key = strtab_add(strtab, new_name, prefix_len + 1 + old_len);
-            
-            // Write new key ID
-            buf_push(b, new_key & 0xFF);
-            buf_push(b, (new_key >> 8) & 0xFF);
-            
-            // Copy rest of instruction after key ID
-            int after_key = instr_size - keyid_offset - 2;
-            if (after_key > 0) {
-                buf_append(b, src + i + keyid_offset + 2, after_key);
+        size_t size = 0;
+        if (cnd_il_instr_len(bc, len, ip, &size) != CND_INSTR_OK) { ok = 0; break; }
+        
+        if (bc[ip] == OP_SWITCH || bc[ip] == OP_SWITCH_TABLE) {
+            size_t start, table_size;
+            if (!cnd_il_switch_table(bc, len, ip, &start, &table_size)) { ok = 0; break; }
+            if (count == cap) {
+                cap = cap ? cap * 2 : 8;
+                tables = realloc(tables, cap * sizeof(*tables));
             }
+            tables[count][0] = start;
+            tables[count][1] = start + table_size;
+            count++;
         }
         
-        i += instr_size;
+        visit(bc + ip, user);
+        ip += size;
+    }
+    
+    free(tables);
+    return ok;
+}
+
+// Offsets of the string table keys inside an instruction. Returns how many there are.
+int il_key_offsets(uint8_t op, int offsets[2]) {
+    offsets[0] = 1;
+    offsets[1] = 3;
+    if (op == OP_ARR_DYNAMIC) return 2; // the array and its count
+    if (op == OP_META_NAME ||
+        op == OP_ENTER_STRUCT ||
+        op == OP_CTX_QUERY ||
+        (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
+        (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
+        (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
+        (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
+        op == OP_RAW_BYTES ||
+        op == OP_ARR_EOF ||
+        op == OP_CONST_CHECK ||
+        op == OP_SWITCH ||
+        op == OP_SWITCH_TABLE ||
+        op == OP_LOAD_CTX ||
+        op == OP_STORE_CTX) return 1;
+    return 0;
+}
+
+typedef struct {
+    const char* prefix;
+    int prefix_len;
+    StringTable* strtab;
+} PrefixKeys;
+
+static void prefix_instr_keys(uint8_t* instr, void* user) {
+    PrefixKeys* k = (PrefixKeys*)user;
+    int offsets[2];
+    int n = il_key_offsets(instr[0], offsets);
+    for (int i = 0; i < n; i++) {
+        uint8_t* at = instr + offsets[i];
+        uint16_t old_key = (uint16_t)(at[0] | (at[1] << 8));
+        const char* old_name = (old_key < k->strtab->count) ? k->strtab->strings[old_key] : "";
+        int old_len = (int)strlen(old_name);
+        
+        // Build new prefixed name
+        char* new_name = malloc((size_t)k->prefix_len + 1 + old_len + 1);
+        memcpy(new_name, k->prefix, k->prefix_len);
+        new_name[k->prefix_len] = '.';
+        memcpy(new_name + k->prefix_len + 1, old_name, old_len + 1);
+        
+        uint16_t new_key = strtab_add(k->strtab, new_name, k->prefix_len + 1 + old_len);
+        free(new_name);
+        at[0] = new_key & 0xFF;
+        at[1] = (new_key >> 8) & 0xFF;
     }
 }
 
+// Append struct bytecode with key IDs remapped to include prefix
+void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
+                            const char* prefix, int prefix_len, StringTable* strtab) {
+    size_t at = b->size;
+    PrefixKeys keys = { prefix, prefix_len, strtab };
+    buf_append(b, src, len);
+    il_walk(b->data + at, len, prefix_instr_keys, &keys);
+}
+
 // --- Buffer Implementation ---
 
 void buf_init(Buffer* b) {
@@ -303,6 +202,7 @@ size_t buf_current_offset(Buffer* b) {
 
 void strtab_init(StringTable* t) {
     t->count = 0;
+    t->overflow = 0;
     t->capacity = 32;
     t->strings = malloc(t->capacity * sizeof(char*));
 }
@@ -313,6 +213,11 @@ uint16_t strtab_add(StringTable* t, const char* start, int len) {
             return (uint16_t)i;
         }
     }
+    if (t->count >= UINT16_MAX) {
+        // IDs and the string count of an image are 16 bits wide
+        t->overflow = 1;
+        return 0;
+    }
     if (t->count >= t->capacity) {
         t->capacity = (t->capacity == 0) ? 8 : t->capacity * 2;
         t->strings = realloc(t->strings, t->capacity * sizeof(char*));
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index bb50d52..66980c7 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -3,14 +3,26 @@
 #include <string.h>
 #include "cnd_internal.h"
 
-static int get_type_size(uint8_t type) {
-    switch (type) {
-        case OP_IO_U8: case OP_IO_I8: return 1;
-        case OP_IO_U16: case OP_IO_I16: return 2;
-        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
-        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
-        case OP_IO_BOOL: return 1;
-        default: return 0;
+typedef struct {
+    uint8_t* used;
+    uint16_t* map; // NULL while the used strings are being marked
+    size_t count;
+} StringUse;
+
+static void visit_string_keys(uint8_t* instr, void* user) {
+    StringUse* u = (StringUse*)user;
+    int offsets[2];
+    int n = il_key_offsets(instr[0], offsets);
+    for (int i = 0; i < n; i++) {
+        uint8_t* at = instr + offsets[i];
+        uint16_t id = (uint16_t)(at[0] | (at[1] << 8));
+        if (id >= u->count) continue;
+        if (!u->map) {
+            u->used[id] = 1;
+        } else {
+            at[0] = u->map[id] & 0xFF;
+            at[1] = (u->map[id] >> 8) & 0xFF;
+        }
     }
 }
 
@@ -19,118 +31,8 @@ static void optimize_strings(Parser* p) {
 
     // 1. Mark used strings
     uint8_t* used = calloc(p->strtab.count, 1);
-    
-    size_t offset = 0;
-    uint8_t* bc = p->global_bc.data;
-    size_t len = p->global_bc.size;
-
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        // Opcodes with string ID at offset 0 (immediately after op)
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t id = *(uint16_t*)(bc + offset);
-            if (id < p->strtab.count) used[id] = 1;
-            offset += 2;
-        }
-
-        // Skip other arguments
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_EOF: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t id = *(uint16_t*)(bc + offset);
-                if (id < p->strtab.count) used[id] = 1;
-                offset += 2; 
-                break;
-            }
-            
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2; // min, max
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break; // poly(2), init(2), xor(2), flags(1)
-            case OP_CRC_32: offset += 13; break; // poly(4), init(4), xor(4), flags(1)
-            case OP_SCALE_LIN: offset += 16; break; // double, double
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break; // double
-            case OP_TRANS_POLY: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 8;
-                break;
-            }
-            case OP_TRANS_SPLINE: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 16; // 2 doubles per point
-                break;
-            }
-            
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
-        }
-    }
+    StringUse use = { used, NULL, p->strtab.count };
+    il_walk(p->global_bc.data, p->global_bc.size, visit_string_keys, &use);
 
     // 2. Build new string table and map
     uint16_t* map = malloc(p->strtab.count * sizeof(uint16_t));
@@ -147,103 +49,8 @@ static void optimize_strings(Parser* p) {
     }
 
     // 3. Update bytecode
-    offset = 0;
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t* id_ptr = (uint16_t*)(bc + offset);
-            uint16_t old_id = *id_ptr;
-            if (old_id < p->strtab.count) {
-                *id_ptr = map[old_id];
-            }
-            offset += 2;
-        }
-
-        // Skip other arguments (same as above)
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t* id_ptr = (uint16_t*)(bc + offset);
-                uint16_t old_id = *id_ptr;
-                if (old_id < p->strtab.count) {
-                    *id_ptr = map[old_id];
-                }
-                offset += 2;
-                break;
-            }
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2;
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break;
-            case OP_CRC_32: offset += 13; break;
-            case OP_SCALE_LIN: offset += 16; break;
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break;
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
-        }
-    }
+    use.map = map;
+    il_walk(p->global_bc.data, p->global_bc.size, visit_string_keys, &use);
 
     // Replace string table
     for(size_t i=0; i<p->strtab.count; i++) free(p->strtab.strings[i]);
@@ -291,6 +98,8 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     advance(&p);
     parse_top_level(&p);
     
+    if (!p.had_error && p.strtab.overflow) parser_error(&p, "Too many names (max 65535)");
+    
     int ret = 0;
 
     if (p.had_error) {
-- 
2.43.0


From 4ac085f75a9724c4453e6db0447805208ecccb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:46 +0000
Subject: [PATCH 14/36] fix: numeric literals are checked instead of being
 truncated or misread

---
 src/compiler/cnd_internal.h |   4 +-
 src/compiler/cnd_parser.c   | 283 +++++++++++++++++++-----------------
 src/compiler/cnd_utils.c    |  62 +++-----
 3 files changed, 170 insertions(+), 179 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index ca05c62..0c0d958 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -107,8 +107,8 @@ Token lexer_next(Lexer* lexer);
 
 // --- Utils: Number Parsing ---
 int hex_char_to_int(char c);
-uint32_t parse_number_u32(const char* start, int length);
-int64_t parse_number_i64(const char* start, int length);
+// Sign and magnitude of an integer literal; 0 if it is not one or needs more than 64 bits
+int parse_integer(const char* start, int length, int* negative, uint64_t* magnitude);
 double parse_number_double(const char* start, int length);
 
 // --- Utils: Buffer ---
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index c688bd9..0270874 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1,4 +1,5 @@
 #include "cnd_internal.h"
+#include <math.h>
 
 // Precedence levels
 typedef enum {
@@ -289,70 +290,90 @@ int match_keyword(Token t, const char* kw) {
 
 
 
+// --- Numeric literals ---
+
+// Smallest and largest value of an integer type, as two's complement
+static void int_limits(uint8_t type_op, int64_t* min, uint64_t* max) {
+    switch (type_op) {
+        case OP_IO_U8: *min = 0; *max = UINT8_MAX; break;
+        case OP_IO_U16: *min = 0; *max = UINT16_MAX; break;
+        case OP_IO_U32: *min = 0; *max = UINT32_MAX; break;
+        case OP_IO_U64: *min = 0; *max = UINT64_MAX; break;
+        case OP_IO_I8: *min = INT8_MIN; *max = INT8_MAX; break;
+        case OP_IO_I16: *min = INT16_MIN; *max = INT16_MAX; break;
+        case OP_IO_I32: *min = INT32_MIN; *max = INT32_MAX; break;
+        default: *min = INT64_MIN; *max = INT64_MAX; break;
+    }
+}
+
+// Integer literal between min and max, as two's complement
+static uint64_t int_literal(Parser* p, Token t, int64_t min, uint64_t max, const char* msg) {
+    int negative;
+    uint64_t magnitude;
+    if (t.type != TOK_NUMBER) return 0; // Already reported
+    if (!parse_integer(t.start, t.length, &negative, &magnitude) ||
+        (negative ? (magnitude != 0 && (min >= 0 || magnitude > (uint64_t)0 - (uint64_t)min)) : magnitude > max)) {
+        parser_error(p, msg);
+        return 0;
+    }
+    return negative ? (uint64_t)0 - magnitude : magnitude;
+}
+
+static double float_literal(Parser* p, Token t) {
+    if (t.type != TOK_NUMBER) return 0.0; // Already reported
+    double val = parse_number_double(t.start, t.length);
+    if (!isfinite(val)) parser_error(p, "Number out of range");
+    return val;
+}
+
+static void buf_push_int(Buffer* b, uint8_t type_op, uint64_t val) {
+    switch (type_op) {
+        case OP_IO_U8: case OP_IO_I8: buf_push(b, (uint8_t)val); break;
+        case OP_IO_U16: case OP_IO_I16: buf_push_u16(b, (uint16_t)val); break;
+        case OP_IO_U32: case OP_IO_I32: buf_push_u32(b, (uint32_t)val); break;
+        default: buf_push_u64(b, val); break;
+    }
+}
+
 void emit_range_check(Parser* p, uint8_t type_op, Token min_tok, Token max_tok) {
-    // Validate range
-    if (type_op == OP_IO_U8 || type_op == OP_IO_U16 || type_op == OP_IO_U32) {
-        uint32_t min = parse_number_u32(min_tok.start, min_tok.length);
-        uint32_t max = parse_number_u32(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
-    } else if (type_op == OP_IO_I8 || type_op == OP_IO_I16 || type_op == OP_IO_I32 || type_op == OP_IO_I64) {
-        int64_t min = parse_number_i64(min_tok.start, min_tok.length);
-        int64_t max = parse_number_i64(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
-    } else if (type_op == OP_IO_U64) {
-        uint64_t min = (uint64_t)parse_number_i64(min_tok.start, min_tok.length);
-        uint64_t max = (uint64_t)parse_number_i64(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
-    } else if (type_op == OP_IO_F32 || type_op == OP_IO_F64) {
-        double min = parse_number_double(min_tok.start, min_tok.length);
-        double max = parse_number_double(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
+    if (type_op == OP_IO_BOOL) { parser_error(p, "Cannot apply range check to bool"); return; }
+    
+    if (type_op == OP_IO_F32 || type_op == OP_IO_F64) {
+        double dmin = float_literal(p, min_tok);
+        double dmax = float_literal(p, max_tok);
+        if (dmin > dmax) { parser_error(p, "Range min > max"); return; }
+        
+        buf_push(p->target, OP_RANGE_CHECK);
+        buf_push(p->target, type_op);
+        if (type_op == OP_IO_F32) {
+            float fmin = (float)dmin;
+            float fmax = (float)dmax;
+            uint32_t imin, imax;
+            memcpy(&imin, &fmin, 4);
+            memcpy(&imax, &fmax, 4);
+            buf_push_u32(p->target, imin);
+            buf_push_u32(p->target, imax);
+        } else {
+            uint64_t imin, imax;
+            memcpy(&imin, &dmin, 8);
+            memcpy(&imax, &dmax, 8);
+            buf_push_u64(p->target, imin);
+            buf_push_u64(p->target, imax);
+        }
+        return;
     }
+    
+    int64_t type_min;
+    uint64_t type_max;
+    int_limits(type_op, &type_min, &type_max);
+    uint64_t min = int_literal(p, min_tok, type_min, type_max, "Range bound does not fit the field type");
+    uint64_t max = int_literal(p, max_tok, type_min, type_max, "Range bound does not fit the field type");
+    if (type_min < 0 ? (int64_t)min > (int64_t)max : min > max) { parser_error(p, "Range min > max"); return; }
 
     buf_push(p->target, OP_RANGE_CHECK);
     buf_push(p->target, type_op);
-    
-    if (type_op == OP_IO_U8) {
-        buf_push(p->target, (uint8_t)parse_number_u32(min_tok.start, min_tok.length));
-        buf_push(p->target, (uint8_t)parse_number_u32(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_U16) {
-        buf_push_u16(p->target, (uint16_t)parse_number_u32(min_tok.start, min_tok.length));
-        buf_push_u16(p->target, (uint16_t)parse_number_u32(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_U32) {
-        buf_push_u32(p->target, parse_number_u32(min_tok.start, min_tok.length));
-        buf_push_u32(p->target, parse_number_u32(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I8) {
-        buf_push(p->target, (uint8_t)(int8_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push(p->target, (uint8_t)(int8_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I16) {
-        buf_push_u16(p->target, (uint16_t)(int16_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u16(p->target, (uint16_t)(int16_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I32) {
-        buf_push_u32(p->target, (uint32_t)(int32_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u32(p->target, (uint32_t)(int32_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_F32) {
-        float fmin = (float)parse_number_double(min_tok.start, min_tok.length);
-        float fmax = (float)parse_number_double(max_tok.start, max_tok.length);
-        uint32_t imin, imax;
-        memcpy(&imin, &fmin, 4);
-        memcpy(&imax, &fmax, 4);
-        buf_push_u32(p->target, imin);
-        buf_push_u32(p->target, imax);
-    } else if (type_op == OP_IO_U64) {
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I64) {
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_F64) {
-        double dmin = parse_number_double(min_tok.start, min_tok.length);
-        double dmax = parse_number_double(max_tok.start, max_tok.length);
-        uint64_t imin, imax;
-        memcpy(&imin, &dmin, 8);
-        memcpy(&imax, &dmax, 8);
-        buf_push_u64(p->target, imin);
-        buf_push_u64(p->target, imax);
-    }
+    buf_push_int(p->target, type_op, min);
+    buf_push_int(p->target, type_op, max);
 }
 
 void parse_field(Parser* p, const char* doc); // Forward declaration
@@ -362,13 +383,13 @@ void parse_block(Parser* p); // Forward declaration
 ExprType parse_primary(Parser* p) {
     if (p->previous.type == TOK_NUMBER) {
         if (is_float_literal(p->previous)) {
-            double val = parse_number_double(p->previous.start, p->previous.length);
+            double val = float_literal(p, p->previous);
             buf_push(p->target, OP_PUSH_IMM);
             uint64_t bits; memcpy(&bits, &val, 8);
             buf_push_u64(p->target, bits);
             return TYPE_FLOAT;
         } else {
-            uint64_t val = (uint64_t)parse_number_i64(p->previous.start, p->previous.length);
+            uint64_t val = int_literal(p, p->previous, INT64_MIN, UINT64_MAX, "Integer out of range");
             buf_push(p->target, OP_PUSH_IMM);
             buf_push_u64(p->target, val);
             return TYPE_INT;
@@ -552,7 +573,7 @@ void parse_switch(Parser* p) {
             
             uint64_t val = 0;
             if (p->current.type == TOK_NUMBER) {
-                val = (uint64_t)parse_number_i64(p->current.start, p->current.length);
+                val = int_literal(p, p->current, INT64_MIN, UINT64_MAX, "Case value must be an integer");
                 advance(p);
             } else if (p->current.type == TOK_IDENTIFIER) {
                 // Enum.Value syntax
@@ -581,6 +602,8 @@ void parse_switch(Parser* p) {
                 } else {
                     parser_error(p, "Expect . after Enum name (Enum.Value)");
                 }
+            } else {
+                parser_error(p, "Expect case value");
             }
             
             consume(p, TOK_COLON, "Expect : after case value");
@@ -621,6 +644,7 @@ void parse_switch(Parser* p) {
 
         } else if (p->current.type == TOK_DEFAULT) {
             advance(p); consume(p, TOK_COLON, "Expect :");
+            if (default_offset != -1) parser_error(p, "Duplicate default");
             default_offset = (int32_t)(buf_current_offset(p->target) - code_start_loc);
             
             if (p->current.type == TOK_LBRACE) {
@@ -646,6 +670,8 @@ void parse_switch(Parser* p) {
     }
     consume(p, TOK_RBRACE, "Expect }");
     
+    if (case_count > UINT16_MAX) parser_error(p, "Too many cases (max 65535)");
+    
     // Analyze cases for Jump Table optimization
     int use_jump_table = 0;
     uint64_t min_val = UINT64_MAX;
@@ -761,7 +787,7 @@ void parse_field(Parser* p, const char* doc) {
     // Decorator State Variables
     uint32_t array_fixed_count = 0;
     int has_fixed_array_count = 0;
-    uint64_t const_val = 0;
+    Token const_tok = {0};
     int has_const = 0;
     int is_big_endian_field = 0;
     int is_standalone_op = 0;
@@ -816,10 +842,7 @@ void parse_field(Parser* p, const char* doc) {
                 advance(p);
                 Token num = p->current;
                 consume(p, TOK_NUMBER, "Expect fill bit value (0 or 1)");
-                fill_val = (uint8_t)parse_number_u32(num.start, num.length);
-                if (fill_val > 1) {
-                    parser_error(p, "Fill bit must be 0 or 1");
-                }
+                fill_val = (uint8_t)int_literal(p, num, 0, 1, "Fill bit must be 0 or 1");
                 consume(p, TOK_RPAREN, "Expect )");
             }
             buf_push(p->target, OP_ALIGN_FILL);
@@ -852,17 +875,20 @@ void parse_field(Parser* p, const char* doc) {
                 } else if (p->current.type == TOK_NUMBER) {
                     Token num = p->current; 
                     advance(p);
-                    array_fixed_count = parse_number_u32(num.start, num.length); has_fixed_array_count = 1;
+                    array_fixed_count = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "Count must be an integer from 0 to 4294967295"); has_fixed_array_count = 1;
                 } else {
                     parser_error(p, "Expect number or variable name for count");
                 }
             } else if (match_keyword(dec_name_token, "const") || match_keyword(dec_name_token, "match")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect const/match value");
-                const_val = (uint64_t)parse_number_i64(num.start, num.length); has_const = 1;
+                const_tok = p->current; consume(p, TOK_NUMBER, "Expect const/match value"); has_const = 1;
             } else if (match_keyword(dec_name_token, "pad")) {
                 is_standalone_op = 1;
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect pad bits");
-                uint32_t pad_bits = parse_number_u32(num.start, num.length); buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_bits);
+                uint32_t pad_bits = (uint32_t)int_literal(p, num, 0, 65535, "Pad bits must be an integer from 0 to 65535");
+                // One instruction pads up to 255 bits
+                uint32_t pad_left = pad_bits;
+                while (pad_left > 255) { buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, 248); pad_left -= 248; }
+                buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_left);
                 if (p->in_bit_mode && p->is_bit_count_valid) {
                     p->current_bit_count += pad_bits;
                 }
@@ -873,33 +899,33 @@ void parse_field(Parser* p, const char* doc) {
                 has_range = 1;
             } else if (match_keyword(dec_name_token, "crc")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect width");
-                crc_width = parse_number_u32(num.start, num.length); has_crc = 1;
+                crc_width = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "CRC width must be 16 or 32"); has_crc = 1;
                 if (crc_width == 16) { crc_poly = 0x1021; crc_init = 0xFFFF; crc_xor = 0; crc_flags = 0; } 
                 else if (crc_width == 32) { crc_poly = 0x04C11DB7; crc_init = 0xFFFFFFFF; crc_xor = 0xFFFFFFFF; crc_flags = 3; }
             } else if (match_keyword(dec_name_token, "crc_poly")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "CRC parameter out of range");
             } else if (match_keyword(dec_name_token, "crc_init")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "CRC parameter out of range");
             } else if (match_keyword(dec_name_token, "crc_xor")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "CRC parameter out of range");
             } else if (match_keyword(dec_name_token, "scale")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect scale factor");
-                trans_type = CND_TRANS_SCALE_F64; trans_scale = parse_number_double(num.start, num.length);
+                trans_type = CND_TRANS_SCALE_F64; trans_scale = float_literal(p, num);
             } else if (match_keyword(dec_name_token, "offset")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect offset value");
-                if (trans_type != CND_TRANS_SCALE_F64) { trans_type = CND_TRANS_SCALE_F64; trans_scale = 1.0; } trans_offset = parse_number_double(num.start, num.length);
+                if (trans_type != CND_TRANS_SCALE_F64) { trans_type = CND_TRANS_SCALE_F64; trans_scale = 1.0; } trans_offset = float_literal(p, num);
             } else if (match_keyword(dec_name_token, "mul")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect mul value");
-                trans_type = CND_TRANS_MUL_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_MUL_I64; trans_int_val = (int64_t)int_literal(p, num, INT64_MIN, INT64_MAX, "Transform value must be a 64-bit signed integer");
             } else if (match_keyword(dec_name_token, "div")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect div value");
-                trans_type = CND_TRANS_DIV_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_DIV_I64; trans_int_val = (int64_t)int_literal(p, num, INT64_MIN, INT64_MAX, "Transform value must be a 64-bit signed integer");
             } else if (match_keyword(dec_name_token, "add")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect add value");
-                trans_type = CND_TRANS_ADD_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_ADD_I64; trans_int_val = (int64_t)int_literal(p, num, INT64_MIN, INT64_MAX, "Transform value must be a 64-bit signed integer");
             } else if (match_keyword(dec_name_token, "sub")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect sub value");
-                trans_type = CND_TRANS_SUB_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_SUB_I64; trans_int_val = (int64_t)int_literal(p, num, INT64_MIN, INT64_MAX, "Transform value must be a 64-bit signed integer");
             } else if (match_keyword(dec_name_token, "poly")) {
                 trans_type = CND_TRANS_POLY;
                 while (true) {
@@ -907,7 +933,7 @@ void parse_field(Parser* p, const char* doc) {
                     if (num.type == TOK_NUMBER) {
                         advance(p);
                         if (poly_count < 16) {
-                            poly_coeffs[poly_count++] = parse_number_double(num.start, num.length);
+                            poly_coeffs[poly_count++] = float_literal(p, num);
                         } else {
                             parser_error(p, "Too many polynomial coefficients (max 16)");
                         }
@@ -927,11 +953,11 @@ void parse_field(Parser* p, const char* doc) {
                     if (num.type == TOK_NUMBER) {
                         advance(p);
                         if (spline_count < 16) { // 16 pairs = 32 doubles
-                            spline_points[spline_count * 2] = parse_number_double(num.start, num.length);
+                            spline_points[spline_count * 2] = float_literal(p, num);
                             consume(p, TOK_COMMA, "Expect comma between x and y");
                             Token y_tok = p->current;
                             consume(p, TOK_NUMBER, "Expect y value");
-                            spline_points[spline_count * 2 + 1] = parse_number_double(y_tok.start, y_tok.length);
+                            spline_points[spline_count * 2 + 1] = float_literal(p, y_tok);
                             spline_count++;
                         } else {
                             parser_error(p, "Too many spline points (max 16)");
@@ -1015,7 +1041,7 @@ void parse_field(Parser* p, const char* doc) {
     uint8_t bit_width = 0;
     if (p->current.type == TOK_COLON) {
         advance(p); consume(p, TOK_NUMBER, "Expect bit width");
-        bit_width = (uint8_t)parse_number_u32(p->previous.start, p->previous.length);
+        bit_width = (uint8_t)int_literal(p, p->previous, 0, 64, "Bit width must be an integer from 1 to 64");
     }
 
     int is_array_field = 0; 
@@ -1030,7 +1056,7 @@ void parse_field(Parser* p, const char* doc) {
         if (p->current.type == TOK_RBRACKET) { advance(p); is_variable_array = 1; } 
         else {
             Token num = p->current; consume(p, TOK_NUMBER, "Expect array size");
-            array_fixed_count = parse_number_u32(num.start, num.length); has_fixed_array_count = 1;
+            array_fixed_count = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "Array size must be an integer from 0 to 4294967295"); has_fixed_array_count = 1;
             consume(p, TOK_RBRACKET, "Expect ]");
         }
     } else {
@@ -1061,8 +1087,13 @@ void parse_field(Parser* p, const char* doc) {
             else parser_error(p, "Invalid prefix type for string");
         } else { parser_error(p, "Prefix keyword used for non-variable-array/non-string type"); }
     } else if (match_keyword(type_tok, "string")) {
-        if (match_keyword(p->current, "until")) { advance(p); consume(p, TOK_NUMBER, "Expect val"); has_until = 1; }
-        if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)parse_number_u32(max_tok.start, max_tok.length); }
+        if (match_keyword(p->current, "until")) {
+            advance(p);
+            Token until_tok = p->current;
+            consume(p, TOK_NUMBER, "Expect val"); has_until = 1;
+            int_literal(p, until_tok, 0, 0, "Strings can only be terminated by 0");
+        }
+        if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)int_literal(p, max_tok, 0, UINT16_MAX, "Max length must be an integer from 0 to 65535"); }
     }
 
     if (is_array_field && match_keyword(type_tok, "string")) {
@@ -1091,62 +1122,36 @@ void parse_field(Parser* p, const char* doc) {
 
     if (has_const) {
         uint8_t type_op = OP_IO_U16;
-        int is_signed = 0;
-        int width = 0; // 1, 2, 4, 8
         int found = 0;
 
-        #define CHECK_TYPE(t1, t2, t3, op, w, s) \
+        #define CHECK_TYPE(t1, t2, t3, op) \
             if (!found && (match_keyword(type_tok, t1) || (t2 && match_keyword(type_tok, t2)) || (t3 && match_keyword(type_tok, t3)))) { \
-                type_op = op; width = w; is_signed = s; found = 1; \
+                type_op = op; found = 1; \
             }
 
-        CHECK_TYPE("uint8", "byte", "u8", OP_IO_U8, 1, 0)
-        CHECK_TYPE("int8", "i8", NULL, OP_IO_I8, 1, 1)
-        CHECK_TYPE("uint16", "u16", NULL, OP_IO_U16, 2, 0)
-        CHECK_TYPE("int16", "i16", NULL, OP_IO_I16, 2, 1)
-        CHECK_TYPE("uint32", "u32", NULL, OP_IO_U32, 4, 0)
-        CHECK_TYPE("int32", "i32", NULL, OP_IO_I32, 4, 1)
-        CHECK_TYPE("uint64", "u64", NULL, OP_IO_U64, 8, 0)
-        CHECK_TYPE("int64", "i64", NULL, OP_IO_I64, 8, 1)
+        CHECK_TYPE("uint8", "byte", "u8", OP_IO_U8)
+        CHECK_TYPE("int8", "i8", NULL, OP_IO_I8)
+        CHECK_TYPE("uint16", "u16", NULL, OP_IO_U16)
+        CHECK_TYPE("int16", "i16", NULL, OP_IO_I16)
+        CHECK_TYPE("uint32", "u32", NULL, OP_IO_U32)
+        CHECK_TYPE("int32", "i32", NULL, OP_IO_I32)
+        CHECK_TYPE("uint64", "u64", NULL, OP_IO_U64)
+        CHECK_TYPE("int64", "i64", NULL, OP_IO_I64)
 
         if (!found) {
              parser_error(p, "Const not supported for this type");
         }
         #undef CHECK_TYPE
 
-        // Validation
-        if (is_signed) {
-            int64_t val_i64 = (int64_t)const_val;
-            int64_t min = 0, max = 0;
-            if (width == 1) { min = -128; max = 127; }
-            else if (width == 2) { min = -32768; max = 32767; }
-            else if (width == 4) { min = -2147483648LL; max = 2147483647LL; }
-            else { min = INT64_MIN; max = INT64_MAX; }
-            
-            if (val_i64 < min || val_i64 > max) {
-                parser_error(p, "Const value out of range for signed type");
-            }
-        } else {
-            uint64_t val_u64 = const_val;
-            uint64_t max = 0;
-            if (width == 1) max = 255;
-            else if (width == 2) max = 65535;
-            else if (width == 4) max = 4294967295ULL;
-            else max = UINT64_MAX;
-            
-            if (val_u64 > max) {
-                parser_error(p, "Const value out of range for unsigned type");
-            }
-        }
+        int64_t type_min;
+        uint64_t type_max;
+        int_limits(type_op, &type_min, &type_max);
+        uint64_t const_val = int_literal(p, const_tok, type_min, type_max, "Const value must be an integer that fits the field type");
         
         buf_push(p->target, OP_CONST_CHECK); 
         buf_push_u16(p->target, key_id);
         buf_push(p->target, type_op);
-        
-        if (type_op == OP_IO_U8 || type_op == OP_IO_I8) buf_push(p->target, (uint8_t)const_val);
-        else if (type_op == OP_IO_U16 || type_op == OP_IO_I16) buf_push_u16(p->target, (uint16_t)const_val);
-        else if (type_op == OP_IO_U32 || type_op == OP_IO_I32) buf_push_u32(p->target, (uint32_t)const_val);
-        else if (type_op == OP_IO_U64 || type_op == OP_IO_I64) buf_push_u64(p->target, const_val);
+        buf_push_int(p->target, type_op, const_val);
         
         if (has_range) { emit_range_check(p, type_op, range_min_tok, range_max_tok); }
     } else {
@@ -1185,11 +1190,7 @@ void parse_field(Parser* p, const char* doc) {
             buf_push(p->target, edef->underlying_type);
             buf_push_u16(p->target, (uint16_t)edef->count);
             for (size_t i = 0; i < edef->count; i++) {
-                int64_t val = edef->values[i].value;
-                if (edef->underlying_type == OP_IO_U8 || edef->underlying_type == OP_IO_I8) buf_push(p->target, (uint8_t)val);
-                else if (edef->underlying_type == OP_IO_U16 || edef->underlying_type == OP_IO_I16) buf_push_u16(p->target, (uint16_t)val);
-                else if (edef->underlying_type == OP_IO_U32 || edef->underlying_type == OP_IO_I32) buf_push_u32(p->target, (uint32_t)val);
-                else if (edef->underlying_type == OP_IO_U64 || edef->underlying_type == OP_IO_I64) buf_push_u64(p->target, (uint64_t)val);
+                buf_push_int(p->target, edef->underlying_type, (uint64_t)edef->values[i].value);
             }
 
             if (has_range) { emit_range_check(p, edef->underlying_type, range_min_tok, range_max_tok); }
@@ -1357,7 +1358,11 @@ void parse_enum(Parser* p, const char* doc) {
 
     consume(p, TOK_LBRACE, "Expect {");
     
+    int64_t type_min;
+    uint64_t type_max;
+    int_limits(def->underlying_type, &type_min, &type_max);
     int64_t next_val = 0;
+    int has_next = 1;
     StringBuilder val_doc_sb;
     sb_init(&val_doc_sb);
     
@@ -1384,7 +1389,9 @@ void parse_enum(Parser* p, const char* doc) {
             advance(p);
             Token num = p->current;
             consume(p, TOK_NUMBER, "Expect enum value");
-            val = parse_number_i64(num.start, num.length);
+            val = (int64_t)int_literal(p, num, type_min, type_max, "Enum value must be an integer that fits the underlying type");
+        } else if (!has_next) {
+            parser_error(p, "Enum value does not fit the underlying type");
         }
         
         // Check for duplicate value
@@ -1399,6 +1406,7 @@ void parse_enum(Parser* p, const char* doc) {
             def->capacity = (def->capacity == 0) ? 8 : def->capacity * 2;
             def->values = realloc(def->values, def->capacity * sizeof(EnumValue));
         }
+        if (def->count == UINT16_MAX) parser_error(p, "Too many enum values (max 65535)");
         def->values[def->count].name = malloc(val_name.length + 1);
         memcpy(def->values[def->count].name, val_name.start, val_name.length);
         def->values[def->count].name[val_name.length] = '\0';
@@ -1407,7 +1415,8 @@ void parse_enum(Parser* p, const char* doc) {
         sb_reset(&val_doc_sb); // Reset for next
         def->count++;
         
-        next_val = val + 1;
+        has_next = (uint64_t)val != type_max;
+        next_val = has_next ? val + 1 : 0;
         
         if (p->current.type == TOK_COMMA) advance(p);
     }
@@ -1637,7 +1646,7 @@ void parse_top_level(Parser* p) {
             
             if (match_keyword(dec, "version")) {
                 consume(p, TOK_LPAREN, "Expect ("); Token ver = p->current; consume(p, TOK_NUMBER, "Expect version number");
-                uint32_t v = parse_number_u32(ver.start, ver.length); buf_push(p->target, OP_META_VERSION); buf_push(p->target, (uint8_t)v);
+                uint8_t v = (uint8_t)int_literal(p, ver, 0, UINT8_MAX, "Version must be an integer from 0 to 255"); buf_push(p->target, OP_META_VERSION); buf_push(p->target, v);
                 consume(p, TOK_RPAREN, "Expect )");
             } else if (match_keyword(dec, "import")) {
                 parse_import(p);
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 43f2917..9e2bf4b 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -345,60 +345,42 @@ int hex_char_to_int(char c) {
     return 0;
 }
 
-uint32_t parse_number_u32(const char* start, int length) {
-    uint32_t res = 0;
-    // Handle hex
-    if (length > 2 && start[0] == '0' && (start[1] == 'x' || start[1] == 'X')) {
-        for (int i = 2; i < length; i++) {
-            res = (res << 4) | hex_char_to_int(start[i]);
-        }
-    } else {
-        for (int i = 0; i < length; i++) {
-            if (start[i] >= '0' && start[i] <= '9') {
-                res = res * 10 + (start[i] - '0');
-            }
-        }
-    }
-    return res;
-}
-
-int64_t parse_number_i64(const char* start, int length) {
+int parse_integer(const char* start, int length, int* negative, uint64_t* magnitude) {
     const char* s = start;
     const char* end = s + length;
-    if (s == end) return 0;
+    uint64_t res = 0;
     
-    int neg = 0;
-    if (*s == '-') {
-        neg = 1;
-        s++;
-    } else if (*s == '+') {
+    *negative = 0;
+    if (s < end && (*s == '-' || *s == '+')) {
+        *negative = (*s == '-');
         s++;
     }
     
-    uint64_t res = 0;
-    if (end - s > 2 && *s == '0' && (s[1] == 'x' || s[1] == 'X')) {
+    uint64_t base = 10;
+    if (end - s >= 2 && *s == '0' && (s[1] == 'x' || s[1] == 'X')) {
+        base = 16;
         s += 2;
-        while (s < end) {
-            res = (res << 4) | hex_char_to_int(*s++);
-        }
-    } else {
-        while (s < end) {
-            char c = *s++;
-            if (c >= '0' && c <= '9') {
-                res = res * 10 + (c - '0');
-            }
-        }
+    }
+    if (s == end) return 0;
+    
+    for (; s < end; s++) {
+        if (base == 16 ? !is_hex_c(*s) : !is_digit_c(*s)) return 0;
+        uint64_t digit = (uint64_t)hex_char_to_int(*s);
+        if (res > (UINT64_MAX - digit) / base) return 0;
+        res = res * base + digit;
     }
     
-    return neg ? -(int64_t)res : (int64_t)res;
+    *magnitude = res;
+    return 1;
 }
 
 double parse_number_double(const char* start, int length) {
-    char buf[64];
-    if (length >= 63) return 0.0;
+    char* buf = malloc((size_t)length + 1);
     memcpy(buf, start, length);
     buf[length] = '\0';
-    return strtod(buf, NULL);
+    double val = strtod(buf, NULL);
+    free(buf);
+    return val;
 }
 
 // --- StringBuilder Implementation ---
-- 
2.43.0


From b1dccafd3ed8c16a49ea75ec3374fc32b2581d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:50 +0000
Subject: [PATCH 15/36] fix: CRC parameters take effect in any order and other
 widths than 16 and 32 are rejected

---
 src/compiler/cnd_parser.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 0270874..9b48a99 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -814,6 +814,7 @@ void parse_field(Parser* p, const char* doc) {
     uint32_t crc_init = 0;
     uint32_t crc_xor = 0;
     uint8_t crc_flags = 0;
+    int has_crc_poly = 0, has_crc_init = 0, has_crc_xor = 0; // Given explicitly, in any order
 
     int has_expr = 0;
     int has_eof = 0;
@@ -900,14 +901,13 @@ void parse_field(Parser* p, const char* doc) {
             } else if (match_keyword(dec_name_token, "crc")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect width");
                 crc_width = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "CRC width must be 16 or 32"); has_crc = 1;
-                if (crc_width == 16) { crc_poly = 0x1021; crc_init = 0xFFFF; crc_xor = 0; crc_flags = 0; } 
-                else if (crc_width == 32) { crc_poly = 0x04C11DB7; crc_init = 0xFFFFFFFF; crc_xor = 0xFFFFFFFF; crc_flags = 3; }
+                if (crc_width != 16 && crc_width != 32) parser_error(p, "CRC width must be 16 or 32");
             } else if (match_keyword(dec_name_token, "crc_poly")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "CRC parameter out of range");
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "CRC parameter out of range"); has_crc_poly = 1;
             } else if (match_keyword(dec_name_token, "crc_init")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "CRC parameter out of range");
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "CRC parameter out of range"); has_crc_init = 1;
             } else if (match_keyword(dec_name_token, "crc_xor")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "CRC parameter out of range");
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = (uint32_t)int_literal(p, num, 0, UINT32_MAX, "CRC parameter out of range"); has_crc_xor = 1;
             } else if (match_keyword(dec_name_token, "scale")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect scale factor");
                 trans_type = CND_TRANS_SCALE_F64; trans_scale = float_literal(p, num);
@@ -987,9 +987,16 @@ void parse_field(Parser* p, const char* doc) {
         return;
     }
     
-    // Emit CRC
+    // CRC defaults
     if (has_crc) {
-        // Do nothing here, wait until type is parsed
+        int wide = (crc_width == 32);
+        if (!has_crc_poly) crc_poly = wide ? 0x04C11DB7 : 0x1021;
+        if (!has_crc_init) crc_init = wide ? 0xFFFFFFFF : 0xFFFF;
+        if (!has_crc_xor) crc_xor = wide ? 0xFFFFFFFF : 0;
+        if (wide) crc_flags |= 3;
+        if (!wide && (crc_poly > UINT16_MAX || crc_init > UINT16_MAX || crc_xor > UINT16_MAX)) parser_error(p, "CRC parameter out of range");
+    } else if (has_crc_poly || has_crc_init || has_crc_xor || crc_flags) {
+        parser_error(p, "CRC parameters need @crc");
     }
     
     // Emit Transform Op
-- 
2.43.0


From 85e6af0aecd12dda430febeb3cacb5169169878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:19 +0000
Subject: [PATCH 16/36] fix: decorators apply to every element of an array, doc
 comments are allowed wherever fields are, and impossible field declarations
 are rejected

---
 src/compiler/cnd_parser.c | 138 ++++++++++++++++++++++++++++----------
 1 file changed, 104 insertions(+), 34 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 9b48a99..a8b6db7 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -376,6 +376,7 @@ void emit_range_check(Parser* p, uint8_t type_op, Token min_tok, Token max_tok)
     buf_push_int(p->target, type_op, max);
 }
 
+static void skip_doc_comments(Parser* p); // Forward declaration
 void parse_field(Parser* p, const char* doc); // Forward declaration
 void parse_block(Parser* p); // Forward declaration
 
@@ -568,6 +569,8 @@ void parse_switch(Parser* p) {
     int32_t default_offset = -1; // -1 indicates no default
 
     while (p->current.type != TOK_RBRACE && p->current.type != TOK_EOF && !p->had_error) {
+        skip_doc_comments(p);
+        if (p->current.type == TOK_RBRACE) break;
         if (p->current.type == TOK_CASE) {
             advance(p); // consume case
             
@@ -625,6 +628,7 @@ void parse_switch(Parser* p) {
             case_count++;
             
             // Parse body
+            skip_doc_comments(p);
             if (p->current.type == TOK_LBRACE) {
                 parse_block(p);
             } else {
@@ -647,6 +651,7 @@ void parse_switch(Parser* p) {
             if (default_offset != -1) parser_error(p, "Duplicate default");
             default_offset = (int32_t)(buf_current_offset(p->target) - code_start_loc);
             
+            skip_doc_comments(p);
             if (p->current.type == TOK_LBRACE) {
                 parse_block(p);
             } else {
@@ -763,24 +768,43 @@ void parse_switch(Parser* p) {
     if(jump_fixups) free(jump_fixups);
 }
 
+static void skip_doc_comments(Parser* p) {
+    while (p->current.type == TOK_DOC_COMMENT) advance(p);
+}
+
+// Width in bits of an integer or bool type, 0 for anything else
+static uint32_t integer_type_bits(Token type) {
+    static const struct { const char* name; uint32_t bits; } types[] = {
+        {"uint8", 8}, {"byte", 8}, {"u8", 8}, {"int8", 8}, {"i8", 8},
+        {"uint16", 16}, {"u16", 16}, {"int16", 16}, {"i16", 16},
+        {"uint32", 32}, {"u32", 32}, {"int32", 32}, {"i32", 32},
+        {"uint64", 64}, {"u64", 64}, {"int64", 64}, {"i64", 64},
+        {"bool", 1}
+    };
+    for (size_t i = 0; i < sizeof(types) / sizeof(types[0]); i++) {
+        if (match_keyword(type, types[i].name)) return types[i].bits;
+    }
+    return 0;
+}
+
 void parse_field(Parser* p, const char* doc) {
     (void)doc;
     if (p->had_error) return;
     
     // Consume doc comments (currently ignored for fields, but prevents syntax error)
-    while (p->current.type == TOK_DOC_COMMENT) {
-        advance(p);
-    }
+    skip_doc_comments(p);
     
     if (p->current.type == TOK_SWITCH) {
         advance(p); // consume switch (was type_tok in previous logic, but here we check before)
         parse_switch(p);
+        if (p->in_bit_mode) p->is_bit_count_valid = 0; // Depends on the data
         return;
     }
 
     if (p->current.type == TOK_IF) {
         advance(p);
         parse_if(p);
+        if (p->in_bit_mode) p->is_bit_count_valid = 0; // Depends on the data
         return;
     }
 
@@ -817,6 +841,7 @@ void parse_field(Parser* p, const char* doc) {
     int has_crc_poly = 0, has_crc_init = 0, has_crc_xor = 0; // Given explicitly, in any order
 
     int has_expr = 0;
+    ExprType expr_type = TYPE_UNKNOWN;
     int has_eof = 0;
     int has_count_ref = 0;
     uint16_t count_ref_id = 0;
@@ -850,8 +875,9 @@ void parse_field(Parser* p, const char* doc) {
             buf_push(p->target, fill_val);
             
             // Reset bit count on fill (aligns to byte)
-            if (p->in_bit_mode && p->is_bit_count_valid) {
+            if (p->in_bit_mode) {
                 p->current_bit_count = 0;
+                p->is_bit_count_valid = 1;
             }
         } else if (match_keyword(dec_name_token, "crc_refin")) {
             crc_flags |= 1;
@@ -972,7 +998,7 @@ void parse_field(Parser* p, const char* doc) {
                     }
                 }
             } else if (match_keyword(dec_name_token, "expr")) {
-                parse_expression(p);
+                expr_type = parse_expression(p);
                 has_expr = 1;
             } else { 
                 parser_error(p, "Unknown decorator");
@@ -980,6 +1006,7 @@ void parse_field(Parser* p, const char* doc) {
             }
             consume(p, TOK_RPAREN, "Expect )");
         }
+        skip_doc_comments(p);
     } 
 
     if (is_standalone_op && (p->current.type == TOK_SEMICOLON || p->current.type == TOK_RBRACE)) {
@@ -999,33 +1026,6 @@ void parse_field(Parser* p, const char* doc) {
         parser_error(p, "CRC parameters need @crc");
     }
     
-    // Emit Transform Op
-    if (trans_type == CND_TRANS_SCALE_F64) {
-        buf_push(p->target, OP_SCALE_LIN);
-        buf_push_u64(p->target, *(uint64_t*)&trans_scale);
-        buf_push_u64(p->target, *(uint64_t*)&trans_offset);
-    } else if (trans_type == CND_TRANS_MUL_I64) {
-        buf_push(p->target, OP_TRANS_MUL); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_DIV_I64) {
-        buf_push(p->target, OP_TRANS_DIV); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_ADD_I64) {
-        buf_push(p->target, OP_TRANS_ADD); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_SUB_I64) {
-        buf_push(p->target, OP_TRANS_SUB); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_POLY) {
-        buf_push(p->target, OP_TRANS_POLY);
-        buf_push(p->target, poly_count);
-        for (int i = 0; i < poly_count; i++) {
-            buf_push_u64(p->target, *(uint64_t*)&poly_coeffs[i]);
-        }
-    } else if (trans_type == CND_TRANS_SPLINE) {
-        buf_push(p->target, OP_TRANS_SPLINE);
-        buf_push(p->target, spline_count);
-        for (int i = 0; i < spline_count * 2; i++) {
-            buf_push_u64(p->target, *(uint64_t*)&spline_points[i]);
-        }
-    }
-
     Token type_tok = p->current;
     consume(p, TOK_IDENTIFIER, "Expect field type");
 
@@ -1046,9 +1046,11 @@ void parse_field(Parser* p, const char* doc) {
     uint16_t key_id = strtab_add(&p->strtab, name_tok.start, name_tok.length);
 
     uint8_t bit_width = 0;
+    int has_bit_width = 0;
     if (p->current.type == TOK_COLON) {
         advance(p); consume(p, TOK_NUMBER, "Expect bit width");
         bit_width = (uint8_t)int_literal(p, p->previous, 0, 64, "Bit width must be an integer from 1 to 64");
+        has_bit_width = 1;
     }
 
     int is_array_field = 0; 
@@ -1109,6 +1111,41 @@ void parse_field(Parser* p, const char* doc) {
         }
     }
 
+    // Decorators that make no sense together or on this kind of field
+    uint32_t type_bits = integer_type_bits(type_tok);
+    int is_bit_field = type_bits > 0 && (has_bit_width || p->in_bit_mode);
+    
+    if (has_bit_width && type_bits > 0 && (bit_width == 0 || bit_width > type_bits)) {
+        parser_error(p, "Bit width must be at least 1 and fit the field type");
+    }
+    if (has_bit_width && type_bits == 0) { parser_error(p, "Bitfields only supported for integer/bool types"); }
+    if (p->in_bit_mode && type_bits == 0) { parser_error(p, "Only integer and bool types allowed in unaligned_bytes struct"); }
+    if (is_bit_field && (has_const || has_range || has_expr || has_crc || trans_type != CND_TRANS_NONE)) {
+        parser_error(p, "Bit fields cannot have a constant, range, transform, expression or CRC");
+    }
+    if (has_const + has_expr + has_crc + (trans_type != CND_TRANS_NONE) > 1) {
+        parser_error(p, "Constant, expression, CRC and transform cannot be combined");
+    }
+    if (has_crc && (has_range || is_array_field)) { parser_error(p, "A CRC field cannot have a range or be an array"); }
+    if (has_expr && is_array_field) { parser_error(p, "An expression field cannot be an array"); }
+    if (has_expr && type_bits == 0 && !match_keyword(type_tok, "float") && !match_keyword(type_tok, "f32") &&
+        !match_keyword(type_tok, "double") && !match_keyword(type_tok, "f64")) {
+        parser_error(p, "Expression not supported for this type");
+    }
+    if (trans_type != CND_TRANS_NONE && match_keyword(type_tok, "bool")) { parser_error(p, "Cannot apply scale/transform to bool"); }
+    
+    if (is_array_field) {
+        if (arr_prefix_op == OP_NOOP && !has_eof && !has_count_ref && !has_fixed_array_count) {
+            parser_error(p, "Array needs a size, 'prefix', @count or @eof");
+        }
+        if ((arr_prefix_op != OP_NOOP) + has_eof + (has_count_ref || has_fixed_array_count) > 1) {
+            parser_error(p, "Array has more than one size");
+        }
+    } else if (has_eof || has_count_ref || has_fixed_array_count) {
+        parser_error(p, "@count and @eof need an array");
+    }
+    if (p->had_error) return;
+
     if (is_big_endian_field) { buf_push(p->target, OP_SET_ENDIAN_BE); }
 
     if (arr_prefix_op != OP_NOOP) {
@@ -1123,6 +1160,33 @@ void parse_field(Parser* p, const char* doc) {
         buf_push_u32(p->target, array_fixed_count);
     } 
     
+    // Emit Transform Op (inside the loop of an array: it applies to every element)
+    if (trans_type == CND_TRANS_SCALE_F64) {
+        buf_push(p->target, OP_SCALE_LIN);
+        buf_push_u64(p->target, *(uint64_t*)&trans_scale);
+        buf_push_u64(p->target, *(uint64_t*)&trans_offset);
+    } else if (trans_type == CND_TRANS_MUL_I64) {
+        buf_push(p->target, OP_TRANS_MUL); buf_push_u64(p->target, (uint64_t)trans_int_val);
+    } else if (trans_type == CND_TRANS_DIV_I64) {
+        buf_push(p->target, OP_TRANS_DIV); buf_push_u64(p->target, (uint64_t)trans_int_val);
+    } else if (trans_type == CND_TRANS_ADD_I64) {
+        buf_push(p->target, OP_TRANS_ADD); buf_push_u64(p->target, (uint64_t)trans_int_val);
+    } else if (trans_type == CND_TRANS_SUB_I64) {
+        buf_push(p->target, OP_TRANS_SUB); buf_push_u64(p->target, (uint64_t)trans_int_val);
+    } else if (trans_type == CND_TRANS_POLY) {
+        buf_push(p->target, OP_TRANS_POLY);
+        buf_push(p->target, poly_count);
+        for (int i = 0; i < poly_count; i++) {
+            buf_push_u64(p->target, *(uint64_t*)&poly_coeffs[i]);
+        }
+    } else if (trans_type == CND_TRANS_SPLINE) {
+        buf_push(p->target, OP_TRANS_SPLINE);
+        buf_push(p->target, spline_count);
+        for (int i = 0; i < spline_count * 2; i++) {
+            buf_push_u64(p->target, *(uint64_t*)&spline_points[i]);
+        }
+    }
+
     if (str_prefix_op != OP_NOOP) {
         buf_push(p->target, str_prefix_op); buf_push_u16(p->target, key_id);
     }
@@ -1247,10 +1311,12 @@ void parse_field(Parser* p, const char* doc) {
                  }
                  else { parser_error(p, "Bitfields only supported for integer/bool types"); return; }
                  
-                 buf_push(p->target, op); buf_push_u16(p->target, key_id); buf_push(p->target, bit_width);
+                 buf_push(p->target, op); buf_push_u16(p->target, key_id);
+                 if (op != OP_IO_BIT_BOOL) buf_push(p->target, bit_width); // A bool is one bit
                  
                  if (p->in_bit_mode && p->is_bit_count_valid) {
-                     p->current_bit_count += bit_width;
+                     if (is_array_field && !has_fixed_array_count) p->is_bit_count_valid = 0;
+                     else p->current_bit_count += bit_width * (int)((is_array_field ? array_fixed_count : 1) % 8);
                  }
             } else {
                 if (p->in_bit_mode) {
@@ -1288,9 +1354,13 @@ void parse_field(Parser* p, const char* doc) {
                          buf_push(p->target, crc_flags);
                      }
                 } else if (has_expr) {
+                    int is_float = (op == OP_IO_F32 || op == OP_IO_F64);
+                    if (is_float && expr_type == TYPE_INT) buf_push(p->target, OP_ITOF);
+                    if (!is_float && expr_type == TYPE_FLOAT) buf_push(p->target, OP_FTOI);
                     buf_push(p->target, OP_DUP);
                     buf_push(p->target, OP_STORE_CTX); buf_push_u16(p->target, key_id);
                     buf_push(p->target, OP_EMIT); buf_push(p->target, op);
+                    if (has_range) { emit_range_check(p, op, range_min_tok, range_max_tok); }
                 } else {
                     buf_push(p->target, op); buf_push_u16(p->target, key_id);
                     if (has_range) { emit_range_check(p, op, range_min_tok, range_max_tok); }
-- 
2.43.0


From 1b4da1f464f7cba4b9435328511f66a71ec61ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:10 +0000
Subject: [PATCH 17/36] fix: after a field with its own byte order or an
 unaligned struct the surrounding byte order applies again

---
 src/compiler/cnd_internal.h |  2 ++
 src/compiler/cnd_parser.c   | 40 +++++++++++++++++++++++++++++++------
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 0c0d958..64a78ce 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -247,6 +247,8 @@ typedef struct {
     int packet_count; // Track number of packets defined
     int import_depth; // Track recursion depth of imports
     
+    uint8_t endian;  // OP_SET_ENDIAN_* in effect here, OP_NOOP inside a struct (depends on its use)
+
     // Decorator State
     int pending_unaligned; // Flag: Next struct is @unaligned_bytes
     int pending_be;        // Flag: Next struct is @big_endian
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index a8b6db7..4f5748b 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -768,6 +768,16 @@ void parse_switch(Parser* p) {
     if(jump_fixups) free(jump_fixups);
 }
 
+static void resolve_endian_instr(uint8_t* instr, void* user) {
+    if (instr[0] == OP_NOOP) instr[0] = *(uint8_t*)user;
+}
+
+// The byte order around a struct is not known before it is used. Where the struct returns
+// to it there is an OP_NOOP, which becomes the order in effect where the struct is used.
+static void resolve_endian(Buffer* b, size_t start, uint8_t endian) {
+    il_walk(b->data + start, b->size - start, resolve_endian_instr, &endian);
+}
+
 static void skip_doc_comments(Parser* p) {
     while (p->current.type == TOK_DOC_COMMENT) advance(p);
 }
@@ -813,7 +823,7 @@ void parse_field(Parser* p, const char* doc) {
     int has_fixed_array_count = 0;
     Token const_tok = {0};
     int has_const = 0;
-    int is_big_endian_field = 0;
+    uint8_t field_endian = OP_NOOP; // OP_NOOP: the order of the surroundings
     int is_standalone_op = 0;
     
     int has_range = 0;
@@ -858,9 +868,9 @@ void parse_field(Parser* p, const char* doc) {
         consume(p, TOK_IDENTIFIER, "Expect decorator name");
         
         if (match_keyword(dec_name_token, "big_endian") || match_keyword(dec_name_token, "be")) {
-            is_big_endian_field = 1;
+            field_endian = OP_SET_ENDIAN_BE;
         } else if (match_keyword(dec_name_token, "little_endian") || match_keyword(dec_name_token, "le")) {
-             is_big_endian_field = 0;
+            field_endian = OP_SET_ENDIAN_LE;
         } else if (match_keyword(dec_name_token, "fill")) {
             is_standalone_op = 1;
             uint8_t fill_val = 0;
@@ -1146,7 +1156,9 @@ void parse_field(Parser* p, const char* doc) {
     }
     if (p->had_error) return;
 
-    if (is_big_endian_field) { buf_push(p->target, OP_SET_ENDIAN_BE); }
+    uint8_t outer_endian = p->endian;
+    if (field_endian == OP_NOOP) field_endian = outer_endian;
+    if (field_endian != outer_endian) { buf_push(p->target, field_endian); }
 
     if (arr_prefix_op != OP_NOOP) {
         buf_push(p->target, arr_prefix_op); buf_push_u16(p->target, key_id);
@@ -1245,8 +1257,10 @@ void parse_field(Parser* p, const char* doc) {
             buf_push(p->target, OP_ENTER_STRUCT); buf_push_u16(p->target, key_id);
             
             // Append struct bytecode with field names prefixed
+            size_t struct_start = buf_current_offset(p->target);
             buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
                                    name_tok.start, name_tok.length, &p->strtab);
+            resolve_endian(p->target, struct_start, field_endian);
             
             buf_push(p->target, OP_EXIT_STRUCT);
         } else if (edef) {
@@ -1373,7 +1387,7 @@ void parse_field(Parser* p, const char* doc) {
 
     consume(p, TOK_SEMICOLON, "Expect ; after field");
 
-    if (is_big_endian_field) { buf_push(p->target, OP_SET_ENDIAN_LE); }
+    if (field_endian != outer_endian) { buf_push(p->target, outer_endian); }
 }
 
 void parse_block(Parser* p) {
@@ -1530,10 +1544,13 @@ void parse_struct(Parser* p, const char* doc) {
     int was_in_bit_mode = p->in_bit_mode;
     int prev_bit_count = p->current_bit_count;
     int prev_bit_valid = p->is_bit_count_valid;
+    uint8_t prev_endian = p->endian;
+    p->endian = OP_NOOP;
 
     if (p->pending_unaligned) {
         buf_push(p->target, OP_ENTER_BIT_MODE);
         buf_push(p->target, OP_SET_ENDIAN_BE);
+        p->endian = OP_SET_ENDIAN_BE;
         p->in_bit_mode = 1;
         p->pending_unaligned = 0;
         p->current_bit_count = 0;
@@ -1556,11 +1573,13 @@ void parse_struct(Parser* p, const char* doc) {
             parser_error(p, msg);
         }
         buf_push(p->target, OP_EXIT_BIT_MODE);
+        buf_push(p->target, OP_NOOP); // Back to the byte order around the struct
         p->in_bit_mode = 0;
     }
     p->in_bit_mode = was_in_bit_mode;
     p->current_bit_count = prev_bit_count;
     p->is_bit_count_valid = prev_bit_valid;
+    p->endian = prev_endian;
 
     p->target = prev;
 
@@ -1602,7 +1621,9 @@ void parse_packet(Parser* p, const char* doc) {
             parser_error(p, "Struct not found");
         } else {
             // Inline the struct's bytecode
+            size_t struct_start = buf_current_offset(p->target);
             buf_append(p->target, sdef->bytecode.data, sdef->bytecode.size);
+            resolve_endian(p->target, struct_start, p->endian);
         }
     } else {
         strtab_init(&p->current_struct_fields);
@@ -1688,11 +1709,14 @@ void parse_import(Parser* p) {
     // Switch state
     lexer_init(&p->lexer, source);
     p->current_path = full_path;
+    int old_unaligned = p->pending_unaligned;
+    p->pending_unaligned = 0;
     
     advance(p);
     p->import_depth++;
     parse_top_level(p);
     p->import_depth--;
+    p->pending_unaligned = old_unaligned;
     
     // Restore state
     p->lexer = old_lexer;
@@ -1705,6 +1729,8 @@ void parse_import(Parser* p) {
 }
 
 void parse_top_level(Parser* p) {
+    if (p->endian == OP_NOOP) p->endian = OP_SET_ENDIAN_LE; // Programs start in little endian
+    
     StringBuilder doc_sb;
     sb_init(&doc_sb);
 
@@ -1727,10 +1753,12 @@ void parse_top_level(Parser* p) {
                 consume(p, TOK_RPAREN, "Expect )");
             } else if (match_keyword(dec, "import")) {
                 parse_import(p);
-            } else if (match_keyword(dec, "big_endian")) {
+            } else if (match_keyword(dec, "big_endian") || match_keyword(dec, "be")) {
                 buf_push(p->target, OP_SET_ENDIAN_BE);
+                p->endian = OP_SET_ENDIAN_BE;
             } else if (match_keyword(dec, "little_endian") || match_keyword(dec, "le")) {
                 buf_push(p->target, OP_SET_ENDIAN_LE);
+                p->endian = OP_SET_ENDIAN_LE;
             } else if (match_keyword(dec, "unaligned_bytes")) {
                 p->pending_unaligned = 1;
             } else {
-- 
2.43.0


From 56d93dc5e0e982e6634f25ae5c22c53c6f83ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:25 +0000
Subject: [PATCH 18/36] fix: enum values up to the end of 64-bit types

---
 src/compiler/cnd_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 4f5748b..e93c96f 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1507,7 +1507,7 @@ void parse_enum(Parser* p, const char* doc) {
         def->count++;
         
         has_next = (uint64_t)val != type_max;
-        next_val = has_next ? val + 1 : 0;
+        next_val = (int64_t)((uint64_t)val + 1);
         
         if (p->current.type == TOK_COMMA) advance(p);
     }
-- 
2.43.0


From ad8e7442b06c365987d3847cdf9126cfd9d0962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:08 +0000
Subject: [PATCH 19/36] fix: a scaled value is rounded to the nearest raw value
 and polynomials are inverted to full precision

---
 src/vm/vm_exec.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index e752ace..106cc67 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -32,7 +32,7 @@ static inline double vm_math_poly_eval(cnd_vm_ctx* ctx, double x) {
 
 static inline double vm_math_poly_solve(cnd_vm_ctx* ctx, double target_y) {
     double x = 0;
-    for(int iter=0; iter<20; iter++) {
+    for(int iter=0; iter<200; iter++) {
         double y = 0;
         double dy = 0;
         if (ctx->trans_poly_count > 0) {
@@ -48,9 +48,11 @@ static inline double vm_math_poly_solve(cnd_vm_ctx* ctx, double target_y) {
             }
         }
         double diff = y - target_y;
-        if (diff > -0.001 && diff < 0.001) break;
-        if (dy == 0) break;
-        x = x - diff / dy;
+        if (diff == 0) break;
+        if (dy == 0) { x += 1; continue; } // flat here (e.g. no linear term): start elsewhere
+        double step = diff / dy;
+        x = x - step;
+        if (fabs(step) <= 1e-12 * fabs(x)) break;
     }
     return x;
 }
@@ -187,7 +189,7 @@ static cnd_error_t report_missing(cnd_vm_ctx* ctx, uint16_t key, uint8_t opcode)
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  double raw_val = vm_math_to_raw(ctx, eng_val); \
+                  double raw_val = round(vm_math_to_raw(ctx, eng_val)); \
                   if (!vm_math_fits(raw_val, (size), (ctype)-1 < (ctype)1)) return CND_ERR_ARITHMETIC; \
                   ctype val = (ctype)raw_val; \
                   WRITE_EXPR; \
-- 
2.43.0


From 55f4e6a0b5f7af63fbe65357f8bdb9f33e27dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 20/36] fix: spline end points survive rounding, and values
 outside the points extend the nearest segment

---
 src/vm/vm_exec.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 106cc67..b1eca25 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -67,7 +67,8 @@ static inline double vm_math_spline_eval(cnd_vm_ctx* ctx, double x) {
             memcpy(&tmp, ctx->trans_spline_data + (i * 2 + 1) * 8, 8); memcpy(&y0, &tmp, 8);
             memcpy(&tmp, ctx->trans_spline_data + ((i + 1) * 2) * 8, 8); memcpy(&x1, &tmp, 8);
             memcpy(&tmp, ctx->trans_spline_data + ((i + 1) * 2 + 1) * 8, 8); memcpy(&y1, &tmp, 8);
-            if ((x >= x0 && x <= x1) || (i == ctx->trans_spline_count - 2)) {
+            // The first and last segments extend beyond the end points
+            if (((x >= x0 || i == 0) && x <= x1) || i == ctx->trans_spline_count - 2) {
                 if (x1 == x0) y = y0;
                 else y = y0 + (x - x0) * (y1 - y0) / (x1 - x0);
                 break;
@@ -78,7 +79,7 @@ static inline double vm_math_spline_eval(cnd_vm_ctx* ctx, double x) {
 }
 
 static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
-    double x = 0;
+    double x = 0, nearest = 0; // nearest: distance to the first point
     if (ctx->trans_spline_count >= 2) {
         for (int i = 0; i < ctx->trans_spline_count - 1; i++) {
             double x0, y0, x1, y1;
@@ -92,6 +93,12 @@ static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
                 else x = x0 + (target_y - y0) * (x1 - x0) / (y1 - y0);
                 break;
             }
+            // Outside all segments (if only by a rounding error): extend the first or last one, like the evaluation
+            double d0 = fabs(target_y - y0), d1 = fabs(target_y - y1);
+            if (y1 != y0 && ((i == 0 && d0 < d1) || (i == ctx->trans_spline_count - 2 && d1 < d0 && d1 <= nearest))) {
+                x = x0 + (target_y - y0) * (x1 - x0) / (y1 - y0);
+            }
+            if (i == 0) nearest = d0;
         }
     }
     return x;
-- 
2.43.0


From b606006c41d230f13319de96d6a109fbe6b201ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 21/36] fix: two-point splines and steep polynomials are
 inverted as well

---
 src/vm/vm_exec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index b1eca25..ea72f2e 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -32,7 +32,7 @@ static inline double vm_math_poly_eval(cnd_vm_ctx* ctx, double x) {
 
 static inline double vm_math_poly_solve(cnd_vm_ctx* ctx, double target_y) {
     double x = 0;
-    for(int iter=0; iter<200; iter++) {
+    for(int iter=0; iter<1000; iter++) {
         double y = 0;
         double dy = 0;
         if (ctx->trans_poly_count > 0) {
@@ -95,10 +95,10 @@ static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
             }
             // Outside all segments (if only by a rounding error): extend the first or last one, like the evaluation
             double d0 = fabs(target_y - y0), d1 = fabs(target_y - y1);
+            if (i == 0) nearest = d0;
             if (y1 != y0 && ((i == 0 && d0 < d1) || (i == ctx->trans_spline_count - 2 && d1 < d0 && d1 <= nearest))) {
                 x = x0 + (target_y - y0) * (x1 - x0) / (y1 - y0);
             }
-            if (i == 0) nearest = d0;
         }
     }
     return x;
-- 
2.43.0


From e57265fd67ea34118835c162e7b0849a5fb85641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:39 +0000
Subject: [PATCH 22/36] fix: unreadable sources are reported, JSON output
 escapes every string, failed writes are errors

---
 src/compiler/cnd_internal.h |  7 +++++
 src/compiler/cnd_parser.c   | 17 ++++++-----
 src/compiler/cnd_utils.c    | 59 +++++++++++++++++++++++++++++++++++++
 src/compiler/cndc.c         | 43 +++++++++++++++++----------
 4 files changed, 103 insertions(+), 23 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 64a78ce..415ab43 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -271,6 +271,13 @@ typedef struct {
 // Caller owns the returned string.
 char* cnd_canonicalize_path(const char* path);
 
+// Returns the newly-allocated text of a file, or NULL if it cannot be read or is not text
+// (sources must not contain NUL characters).
+char* cnd_read_source(const char* path);
+
+// Prints a string as a JSON string with quotes. Invalid UTF-8 becomes U+FFFD.
+void cnd_json_print_string(const char* s, size_t len);
+
 void parser_error(Parser* p, const char* msg);
 void advance(Parser* p);
 void consume(Parser* p, TokenType type, const char* msg);
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index e93c96f..1da7f3d 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -231,8 +231,13 @@ void parser_error(Parser* p, const char* msg) {
     if (p->json_output) {
         // JSON format: {"file": "...", "line": N, "message": "...", "token": "..."}
         // We use manual JSON construction to avoid dependency on cJSON in the compiler core
-        printf("{\"file\": \"%s\", \"line\": %d, \"message\": \"%s\", \"token\": \"%.*s\"}\n",
-            p->current_path, p->current.line, msg, p->current.length, p->current.start);
+        printf("{\"file\": ");
+        cnd_json_print_string(p->current_path, strlen(p->current_path));
+        printf(", \"line\": %d, \"message\": ", p->current.line);
+        cnd_json_print_string(msg, strlen(msg));
+        printf(", \"token\": ");
+        cnd_json_print_string(p->current.start, (size_t)p->current.length);
+        printf("}\n");
     } else {
         // Standard error format: file:line:col: error: message
         // With colors: Bold File, Red Error
@@ -1687,8 +1692,8 @@ void parse_import(Parser* p) {
     strtab_add(&p->imports, full_path, (int)strlen(full_path));
     
     // Read file
-    FILE* f = fopen(full_path, "rb");
-    if (!f) {
+    char* source = cnd_read_source(full_path);
+    if (!source) {
         char msg[512];
         snprintf(msg, sizeof(msg), "Could not open imported file: %s", full_path);
         parser_error(p, msg);
@@ -1696,10 +1701,6 @@ void parse_import(Parser* p) {
         return;
     }
     
-    fseek(f, 0, SEEK_END); long size = ftell(f); fseek(f, 0, SEEK_SET);
-    char* source = (char*)malloc(size + 1); fread(source, 1, size, f); source[size] = '\0';
-    fclose(f);
-    
     // Save state
     Lexer old_lexer = p->lexer;
     Token old_cur = p->current;
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 9e2bf4b..9e5449b 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -1,4 +1,5 @@
 #include "cnd_internal.h"
+#include <limits.h>
 #include "../vm/vm_internal.h"
 
 char* cnd_canonicalize_path(const char* path) {
@@ -28,6 +29,64 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
+char* cnd_read_source(const char* path) {
+    FILE* f = fopen(path, "rb");
+    if (!f) return NULL;
+    
+    size_t size = 0, cap = 4096;
+    char* text = malloc(cap);
+    while (text) {
+        size_t got = fread(text + size, 1, cap - size - 1, f);
+        if (got == 0) break;
+        size += got;
+        if (size == cap - 1) {
+            char* grown = (cap < INT_MAX / 2) ? realloc(text, cap * 2) : NULL;
+            if (!grown) { free(text); text = NULL; break; }
+            text = grown;
+            cap *= 2;
+        }
+    }
+    
+    if (text && (ferror(f) || memchr(text, '\0', size))) { free(text); text = NULL; }
+    if (text) text[size] = '\0';
+    fclose(f);
+    return text;
+}
+
+// Length of the valid UTF-8 sequence at s, 0 if there is none
+static size_t utf8_length(const unsigned char* s, size_t len) {
+    size_t n = s[0] < 0x80 ? 1 : s[0] < 0xC2 ? 0 : s[0] < 0xE0 ? 2 : s[0] < 0xF0 ? 3 : s[0] < 0xF5 ? 4 : 0;
+    if (n > len) return 0;
+    for (size_t i = 1; i < n; i++) if ((s[i] & 0xC0) != 0x80) return 0;
+    if (s[0] == 0xE0 && s[1] < 0xA0) return 0; // overlong
+    if (s[0] == 0xED && s[1] > 0x9F) return 0; // surrogate
+    if (s[0] == 0xF0 && s[1] < 0x90) return 0; // overlong
+    if (s[0] == 0xF4 && s[1] > 0x8F) return 0; // above U+10FFFF
+    return n;
+}
+
+void cnd_json_print_string(const char* s, size_t len) {
+    StringBuilder sb;
+    sb_init(&sb);
+    sb_append_c(&sb, '"');
+    for (size_t i = 0; i < len; ) {
+        unsigned char c = (unsigned char)s[i];
+        size_t n = utf8_length((const unsigned char*)s + i, len - i);
+        if (n == 0) { sb_append(&sb, "\\ufffd"); n = 1; }
+        else if (c == '"' || c == '\\') { sb_append_c(&sb, '\\'); sb_append_c(&sb, (char)c); }
+        else if (c < 0x20 || c == 0x7F) {
+            char esc[8];
+            snprintf(esc, sizeof(esc), "\\u%04x", c);
+            sb_append(&sb, esc);
+        }
+        else sb_append_n(&sb, s + i, n);
+        i += n;
+    }
+    sb_append_c(&sb, '"');
+    fwrite(sb.data, 1, sb.length, stdout);
+    sb_free(&sb);
+}
+
 // Visits the instructions of a bytecode buffer in order. Jump tables follow the bodies of
 // their switch and are skipped. Returns 0 if the bytecode is not well formed.
 int il_walk(uint8_t* bc, size_t len, il_visit_fn visit, void* user) {
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 66980c7..100fe50 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -61,26 +61,33 @@ static void optimize_strings(Parser* p) {
     free(map);
 }
 
+static void print_json_error(const char* head, const char* msg, const char* path) {
+    StringBuilder sb;
+    sb_init(&sb);
+    sb_append(&sb, msg);
+    sb_append(&sb, path);
+    printf("%s", head);
+    cnd_json_print_string(sb.data, sb.length);
+    printf("}\n");
+    sb_free(&sb);
+}
+
 // Implementation of cnd_compile_file using the new modular structure
 int cnd_compile_file(const char* in_path, const char* out_path, int json_output, int verbose) {
     setbuf(stdout, NULL); // Ensure debug prints are flushed immediately
     char* canonical_in_path = cnd_canonicalize_path(in_path);
     const char* open_path = canonical_in_path ? canonical_in_path : in_path;
 
-    FILE* f = fopen(open_path, "rb");
-    if (!f) { 
-        if (json_output) printf("{\"error\": \"Error opening input file: %s\"}\n", open_path);
+    char* source = cnd_read_source(open_path);
+    if (!source) { 
+        if (json_output) print_json_error("{\"error\": ", "Error opening input file: ", open_path);
         else printf("Error opening input file: %s\n", open_path);
         if (canonical_in_path) free(canonical_in_path);
         return 1; 
     }
-    fseek(f, 0, SEEK_END); long size = ftell(f); fseek(f, 0, SEEK_SET);
-    char* source = malloc(size + 1); fread(source, 1, size, f); source[size] = '\0';
-    fclose(f);
 
     Parser p;
     memset(&p, 0, sizeof(Parser)); // Zero init
-    p.verbose = verbose;
     lexer_init(&p.lexer, source);
     buf_init(&p.global_bc);
     strtab_init(&p.strtab);
@@ -90,7 +97,7 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     p.target = &p.global_bc;
     p.current_path = open_path;
     p.json_output = json_output;
-    p.verbose = verbose;
+    p.verbose = verbose && !json_output; // JSON output is one object per line
     
     // Add main file to imports to prevent self-import
     strtab_add(&p.imports, open_path, (int)strlen(open_path));
@@ -109,7 +116,7 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
 
         FILE* out = fopen(out_path, "wb");
         if (!out) { 
-            if (json_output) printf("{\"status\": \"error\", \"message\": \"Error opening output file: %s\"}\n", out_path);
+            if (json_output) print_json_error("{\"status\": \"error\", \"message\": ", "Error opening output file: ", out_path);
             else printf(COLOR_BOLD COLOR_RED "[ERROR]" COLOR_RESET " Error opening output file: %s\n", out_path); 
             ret = 1; 
         } else {
@@ -127,12 +134,18 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
             
             fwrite(p.global_bc.data, 1, p.global_bc.size, out);
             
-            fclose(out);
-            if (json_output) {
-                // Escape paths for JSON (simple check)
-                // For now assuming paths don't have crazy characters, but in production should be escaped properly
-                printf("{\"status\": \"success\", \"input\": \"%s\", \"output\": \"%s\", \"stats\": {\"strings\": %zu, \"bytecode_size\": %zu}}\n",
-                    in_path, out_path, p.strtab.count, p.global_bc.size);
+            int failed = ferror(out);
+            if (fclose(out) != 0) failed = 1;
+            if (failed) {
+                if (json_output) print_json_error("{\"status\": \"error\", \"message\": ", "Error writing output file: ", out_path);
+                else printf(COLOR_BOLD COLOR_RED "[ERROR]" COLOR_RESET " Error writing output file: %s\n", out_path);
+                ret = 1;
+            } else if (json_output) {
+                printf("{\"status\": \"success\", \"input\": ");
+                cnd_json_print_string(in_path, strlen(in_path));
+                printf(", \"output\": ");
+                cnd_json_print_string(out_path, strlen(out_path));
+                printf(", \"stats\": {\"strings\": %zu, \"bytecode_size\": %zu}}\n", p.strtab.count, p.global_bc.size);
             } else {
                 printf(COLOR_BOLD COLOR_GREEN "[SUCCESS]" COLOR_RESET " Compiled " COLOR_CYAN "%s" COLOR_RESET "\n", in_path);
                 printf("  " COLOR_BOLD "Output:" COLOR_RESET "   %s\n", out_path);
-- 
2.43.0


From 9a3dd89f7b3c10f3df644a501ac6fc2549a4e24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:06 +0000
Subject: [PATCH 23/36] fix: deep nesting, huge programs and floods of errors
 are limited instead of exhausting the stack, memory or time

---
 src/compiler/cnd_internal.h |   9 ++++
 src/compiler/cnd_parser.c   | 102 ++++++++++++++++++++++++++----------
 src/compiler/cnd_utils.c    |   1 +
 src/compiler/cndc.c         |  14 +++--
 4 files changed, 94 insertions(+), 32 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 415ab43..b4272c5 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -17,6 +17,13 @@
 extern "C" {
 #endif
 
+// Limits that keep any input from exhausting the stack or the memory
+#define CND_MAX_NESTING 256                  // Nested blocks and expressions
+#define CND_MAX_IMPORT_DEPTH 64              // Imports inside imports
+#define CND_MAX_ERRORS 100                   // Errors reported for one source
+#define CND_MAX_ERROR_LINE 500               // Source line length quoted in an error
+#define CND_MAX_BYTECODE (16u * 1024 * 1024) // Bytes of bytecode of a program or struct
+
 // ANSI Color Codes
 #define COLOR_RESET   "\033[0m"
 #define COLOR_RED     "\033[31m"
@@ -265,6 +272,8 @@ typedef struct {
 
     CompilerError* errors; // List of errors for LSP
     size_t error_cap;
+    
+    int nesting; // Depth of nested blocks and expressions
 } Parser;
 
 // Returns a newly-allocated canonicalized path string for de-duplication.
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 1da7f3d..a39e380 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -171,10 +171,16 @@ ExprType parse_expression(Parser* p) {
 }
 
 static ExprType parse_precedence(Parser* p, Precedence prec) {
+    if (p->nesting == CND_MAX_NESTING) {
+        parser_error(p, "Expression is nested too deeply");
+        return TYPE_UNKNOWN;
+    }
+    p->nesting++;
     advance(p);
     ParsePrefixFn prefix_rule = get_rule(p->previous.type)->prefix;
     if (prefix_rule == NULL) {
         parser_error(p, "Expect expression");
+        p->nesting--;
         return TYPE_UNKNOWN;
     }
 
@@ -192,6 +198,7 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
         ParseInfixFn infix_rule = get_rule(p->previous.type)->infix;
         left = infix_rule(p, left);
     }
+    p->nesting--;
     return left;
 }
 
@@ -199,6 +206,7 @@ static char* append_doc(char* current, Token t);
 
 void parser_error(Parser* p, const char* msg) {
     p->had_error = 1;
+    if (p->error_count == CND_MAX_ERRORS) return;
     p->error_count++;
 
     // Calculate column
@@ -251,7 +259,7 @@ void parser_error(Parser* p, const char* msg) {
         }
         
         int line_len = (int)(line_end - line_start);
-        if (line_len > 0) {
+        if (line_len > 0 && line_len <= CND_MAX_ERROR_LINE) {
             printf("    %.*s\n", line_len, line_start);
             printf("    ");
             for(int i=0; i<col-1; i++) {
@@ -262,7 +270,7 @@ void parser_error(Parser* p, const char* msg) {
             // Print squiggles
             printf(COLOR_RED "^");
             int len = p->current.length;
-            if (len < 1) len = 1;
+            if (len > line_len - (col - 1)) len = line_len - (col - 1); // The token may go on below
             for(int i=1; i<len; i++) printf("~");
             printf(COLOR_RESET "\n");
         }
@@ -506,39 +514,55 @@ ExprType parse_primary(Parser* p) {
 }
 
 void parse_if(Parser* p) {
-    consume(p, TOK_LPAREN, "Expect ( after if");
-    parse_expression(p);
-    consume(p, TOK_RPAREN, "Expect ) after if condition");
-    
-    size_t jump_false_loc = buf_current_offset(p->target);
-    buf_push(p->target, OP_JUMP_IF_NOT);
-    buf_push_u32(p->target, 0); // Placeholder
-    
-    parse_block(p);
-    
-    size_t jump_end_loc = buf_current_offset(p->target);
-    buf_push(p->target, OP_JUMP);
-    buf_push_u32(p->target, 0); // Placeholder
-    
-    // Patch jump_false
-    size_t else_start = buf_current_offset(p->target);
-    int32_t false_offset = (int32_t)(else_start - (jump_false_loc + 1 + 4));
-    buf_write_u32_at(p->target, jump_false_loc + 1, (uint32_t)false_offset);
+    // Where the jumps to the end of the whole chain are
+    size_t* jump_ends = NULL;
+    size_t jump_count = 0;
+    size_t jump_cap = 0;
+    int more = 1;
     
-    if (p->current.type == TOK_ELSE) {
-        advance(p);
-        if (p->current.type == TOK_IF) {
+    while (more) {
+        more = 0;
+        consume(p, TOK_LPAREN, "Expect ( after if");
+        parse_expression(p);
+        consume(p, TOK_RPAREN, "Expect ) after if condition");
+        
+        size_t jump_false_loc = buf_current_offset(p->target);
+        buf_push(p->target, OP_JUMP_IF_NOT);
+        buf_push_u32(p->target, 0); // Placeholder
+        
+        parse_block(p);
+        
+        if (jump_count == jump_cap) {
+            jump_cap = (jump_cap == 0) ? 8 : jump_cap * 2;
+            jump_ends = realloc(jump_ends, jump_cap * sizeof(size_t));
+        }
+        jump_ends[jump_count++] = buf_current_offset(p->target);
+        buf_push(p->target, OP_JUMP);
+        buf_push_u32(p->target, 0); // Placeholder
+        
+        // Patch jump_false
+        size_t else_start = buf_current_offset(p->target);
+        int32_t false_offset = (int32_t)(else_start - (jump_false_loc + 1 + 4));
+        buf_write_u32_at(p->target, jump_false_loc + 1, (uint32_t)false_offset);
+        
+        if (p->current.type == TOK_ELSE) {
             advance(p);
-            parse_if(p); // recursive else if
-        } else {
-            parse_block(p);
+            if (p->current.type == TOK_IF) {
+                advance(p);
+                more = !p->had_error; // else if
+            } else {
+                parse_block(p);
+            }
         }
     }
     
-    // Patch jump_end
+    // Patch the jumps to the end
     size_t end_loc = buf_current_offset(p->target);
-    int32_t end_offset = (int32_t)(end_loc - (jump_end_loc + 1 + 4));
-    buf_write_u32_at(p->target, jump_end_loc + 1, (uint32_t)end_offset);
+    for (size_t i = 0; i < jump_count; i++) {
+        int32_t end_offset = (int32_t)(end_loc - (jump_ends[i] + 1 + 4));
+        buf_write_u32_at(p->target, jump_ends[i] + 1, (uint32_t)end_offset);
+    }
+    free(jump_ends);
 }
 
 typedef struct {
@@ -809,9 +833,18 @@ void parse_field(Parser* p, const char* doc) {
     // Consume doc comments (currently ignored for fields, but prevents syntax error)
     skip_doc_comments(p);
     
+    if (p->current.type == TOK_SWITCH || p->current.type == TOK_IF) {
+        if (p->nesting == CND_MAX_NESTING) {
+            parser_error(p, "Blocks are nested too deeply");
+            return;
+        }
+        p->nesting++;
+    }
+    
     if (p->current.type == TOK_SWITCH) {
         advance(p); // consume switch (was type_tok in previous logic, but here we check before)
         parse_switch(p);
+        p->nesting--;
         if (p->in_bit_mode) p->is_bit_count_valid = 0; // Depends on the data
         return;
     }
@@ -819,6 +852,7 @@ void parse_field(Parser* p, const char* doc) {
     if (p->current.type == TOK_IF) {
         advance(p);
         parse_if(p);
+        p->nesting--;
         if (p->in_bit_mode) p->is_bit_count_valid = 0; // Depends on the data
         return;
     }
@@ -1262,6 +1296,10 @@ void parse_field(Parser* p, const char* doc) {
             buf_push(p->target, OP_ENTER_STRUCT); buf_push_u16(p->target, key_id);
             
             // Append struct bytecode with field names prefixed
+            if (p->target->size + sdef->bytecode.size > CND_MAX_BYTECODE || p->strtab.overflow) {
+                parser_error(p, p->strtab.overflow ? "Too many names (max 65535)" : "Program is too large");
+                return;
+            }
             size_t struct_start = buf_current_offset(p->target);
             buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
                                    name_tok.start, name_tok.length, &p->strtab);
@@ -1691,6 +1729,12 @@ void parse_import(Parser* p) {
     // Add to imports
     strtab_add(&p->imports, full_path, (int)strlen(full_path));
     
+    if (p->import_depth == CND_MAX_IMPORT_DEPTH) {
+        parser_error(p, "Imports are nested too deeply");
+        free(full_path);
+        return;
+    }
+    
     // Read file
     char* source = cnd_read_source(full_path);
     if (!source) {
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 9e5449b..24548a3 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -111,6 +111,7 @@ int il_walk(uint8_t* bc, size_t len, il_visit_fn visit, void* user) {
         if (bc[ip] == OP_SWITCH || bc[ip] == OP_SWITCH_TABLE) {
             size_t start, table_size;
             if (!cnd_il_switch_table(bc, len, ip, &start, &table_size)) { ok = 0; break; }
+            if (count == CND_MAX_SWITCH_DEPTH) { ok = 0; break; } // Programs like this do not verify
             if (count == cap) {
                 cap = cap ? cap * 2 : 8;
                 tables = realloc(tables, cap * sizeof(*tables));
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 100fe50..037240e 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -28,11 +28,19 @@ static void visit_string_keys(uint8_t* instr, void* user) {
 
 static void optimize_strings(Parser* p) {
     if (p->strtab.count == 0) return;
+    if (p->global_bc.size > CND_MAX_BYTECODE) {
+        parser_error(p, "Program is too large");
+        return;
+    }
 
     // 1. Mark used strings
     uint8_t* used = calloc(p->strtab.count, 1);
     StringUse use = { used, NULL, p->strtab.count };
-    il_walk(p->global_bc.data, p->global_bc.size, visit_string_keys, &use);
+    if (!il_walk(p->global_bc.data, p->global_bc.size, visit_string_keys, &use)) {
+        parser_error(p, "Switches are nested too deeply");
+        free(used);
+        return;
+    }
 
     // 2. Build new string table and map
     uint16_t* map = malloc(p->strtab.count * sizeof(uint16_t));
@@ -109,11 +117,11 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     
     int ret = 0;
 
+    if (!p.had_error) optimize_strings(&p);
+    
     if (p.had_error) {
         ret = 1;
     } else {
-        optimize_strings(&p);
-
         FILE* out = fopen(out_path, "wb");
         if (!out) { 
             if (json_output) print_json_error("{\"status\": \"error\", \"message\": ", "Error opening output file: ", out_path);
-- 
2.43.0


From 2a0abe37f500fce3cd20cc712d1c5adf806e1ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:38 +0000
Subject: [PATCH 24/36] fix: formatting is idempotent, keeps block comments as
 they are and reports write errors

---
 src/compiler/cnd_fmt.c | 54 ++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index 89abf8a..0301b73 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -23,6 +23,7 @@ typedef enum {
     FMT_COMMA,     // ,
     FMT_AT,        // @
     FMT_COMMENT,   // // ...
+    FMT_BLOCK_COMMENT, // /* ... */
     FMT_NEWLINE,   // \n
     FMT_WHITESPACE // spaces/tabs
 } FmtTokenType;
@@ -82,6 +83,19 @@ static FmtToken fmt_next(FmtLexer* l) {
         t.length = (int)(l->current - t.start);
         return t;
     }
+    if (c == '/' && *l->current == '*') {
+        t.type = FMT_BLOCK_COMMENT;
+        l->current++;
+        while (*l->current != '\0') {
+            if (*l->current == '*' && *(l->current + 1) == '/') {
+                l->current += 2;
+                break;
+            }
+            l->current++;
+        }
+        t.length = (int)(l->current - t.start);
+        return t;
+    }
 
     switch (c) {
         case '{': t.type = FMT_LBRACE; return t;
@@ -139,7 +153,8 @@ char* cnd_format_source(const char* source) {
     sb_init(&out);
 
     int indent = 0;
-    int newline_pending = 0;
+    int newline_pending = 0; // The layout asks for a line break here
+    int newlines_seen = 0;   // Line breaks of the input since the last token
     int space_pending = 0;
     int on_new_line = 1;
 
@@ -159,10 +174,14 @@ char* cnd_format_source(const char* source) {
         }
 
         if (t.type == FMT_NEWLINE) {
-            if (newline_pending < 2) newline_pending++;
+            newlines_seen++;
             continue;
         }
 
+        // A blank line stays one blank line
+        if (newlines_seen > newline_pending) newline_pending = (newlines_seen > 1) ? 2 : 1;
+        newlines_seen = 0;
+
         // Logic
         if (t.type == FMT_RBRACE) {
             indent--;
@@ -185,14 +204,10 @@ char* cnd_format_source(const char* source) {
         if (on_new_line) {
             sb_indent(&out, indent);
             on_new_line = 0;
-        } else if (space_pending) {
+        } else if (space_pending || t.type == FMT_LBRACE) { // Space before {
             sb_append(&out, " ");
-            space_pending = 0;
-        }
-
-        if (t.type == FMT_LBRACE) {
-            sb_append(&out, " "); // Space before {
         }
+        space_pending = 0;
 
         sb_append_n(&out, t.start, t.length);
 
@@ -208,28 +223,19 @@ char* cnd_format_source(const char* source) {
         prev = t;
     }
     
-    sb_append(&out, "\n");
+    if (out.length == 0 || out.data[out.length - 1] != '\n') sb_append(&out, "\n");
     char* result = sb_build(&out);
     sb_free(&out);
     return result;
 }
 
 int cnd_format_file(const char* in_path, const char* out_path) {
-    FILE* f = fopen(in_path, "rb");
-    if (!f) {
+    char* source = cnd_read_source(in_path);
+    if (!source) {
         fprintf(stderr, "Failed to open input file: %s\n", in_path);
         return 1;
     }
 
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    char* source = (char*)malloc(size + 1);
-    fread(source, 1, size, f);
-    source[size] = '\0';
-    fclose(f);
-
     char* formatted = cnd_format_source(source);
     free(source);
 
@@ -246,8 +252,10 @@ int cnd_format_file(const char* in_path, const char* out_path) {
     }
 
     fputs(formatted, out);
-    
-    if (out_path && out != stdout) fclose(out);
     free(formatted);
-    return 0;
+    
+    int failed = fflush(out) != 0 || ferror(out);
+    if (out_path && fclose(out) != 0) failed = 1;
+    if (failed) fprintf(stderr, "Failed to write output file: %s\n", out_path ? out_path : "stdout");
+    return failed ? 1 : 0;
 }
-- 
2.43.0


From 6183b33634c0e3ec17f14189951407aa6f442cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:25 +0000
Subject: [PATCH 25/36] fix: names are looked up through a hash index, so
 schemas with many names compile in time

---
 src/compiler/cnd_internal.h |  2 ++
 src/compiler/cnd_utils.c    | 36 ++++++++++++++++++++++++++++++------
 src/compiler/cndc.c         | 13 +++----------
 3 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index b4272c5..54b7db6 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -143,6 +143,8 @@ typedef struct {
     size_t count;
     size_t capacity;
     int overflow; // More strings than IDs were added
+    uint32_t* index;   // Hash index: position + 1, 0 is free
+    size_t index_size; // Power of two
 } StringTable;
 
 void strtab_init(StringTable* t);
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 24548a3..870fc6c 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -265,14 +265,26 @@ void strtab_init(StringTable* t) {
     t->overflow = 0;
     t->capacity = 32;
     t->strings = malloc(t->capacity * sizeof(char*));
+    t->index_size = 64;
+    t->index = calloc(t->index_size, sizeof(uint32_t));
+}
+
+// The index slot of a string: the one which holds it or the free one it belongs in
+static size_t strtab_slot(const StringTable* t, const char* start, size_t len) {
+    uint32_t hash = 2166136261u;
+    for (size_t i = 0; i < len; i++) hash = (hash ^ (uint8_t)start[i]) * 16777619u;
+    size_t slot = hash & (t->index_size - 1);
+    while (t->index[slot]) {
+        const char* s = t->strings[t->index[slot] - 1];
+        if (strlen(s) == len && memcmp(s, start, len) == 0) break;
+        slot = (slot + 1) & (t->index_size - 1);
+    }
+    return slot;
 }
 
 uint16_t strtab_add(StringTable* t, const char* start, int len) {
-    for (size_t i = 0; i < t->count; i++) {
-        if (strlen(t->strings[i]) == (size_t)len && strncmp(t->strings[i], start, len) == 0) {
-            return (uint16_t)i;
-        }
-    }
+    size_t slot = strtab_slot(t, start, (size_t)len);
+    if (t->index[slot]) return (uint16_t)(t->index[slot] - 1);
     if (t->count >= UINT16_MAX) {
         // IDs and the string count of an image are 16 bits wide
         t->overflow = 1;
@@ -286,7 +298,17 @@ uint16_t strtab_add(StringTable* t, const char* start, int len) {
     memcpy(copy, start, len);
     copy[len] = '\0';
     t->strings[t->count] = copy;
-    return (uint16_t)t->count++;
+    t->index[slot] = (uint32_t)t->count + 1;
+    uint16_t id = (uint16_t)t->count++;
+    if (t->count * 2 > t->index_size) {
+        free(t->index);
+        t->index_size *= 2;
+        t->index = calloc(t->index_size, sizeof(uint32_t));
+        for (size_t i = 0; i < t->count; i++) {
+            t->index[strtab_slot(t, t->strings[i], strlen(t->strings[i]))] = (uint32_t)i + 1;
+        }
+    }
+    return id;
 }
 
 void strtab_free(StringTable* t) {
@@ -294,9 +316,11 @@ void strtab_free(StringTable* t) {
         free(t->strings[i]);
     }
     free(t->strings);
+    free(t->index);
     t->count = 0;
     t->capacity = 0;
     t->strings = NULL;
+    t->index = NULL;
 }
 
 // --- Registry Implementation ---
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 037240e..5798077 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -61,8 +61,7 @@ static void optimize_strings(Parser* p) {
     il_walk(p->global_bc.data, p->global_bc.size, visit_string_keys, &use);
 
     // Replace string table
-    for(size_t i=0; i<p->strtab.count; i++) free(p->strtab.strings[i]);
-    free(p->strtab.strings);
+    strtab_free(&p->strtab);
     p->strtab = new_tab;
 
     free(used);
@@ -199,15 +198,9 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     }
     
     // Free string table contents
-    if (p.strtab.strings) {
-        for(size_t i=0; i<p.strtab.count; i++) free(p.strtab.strings[i]);
-        free(p.strtab.strings);
-    }
+    strtab_free(&p.strtab);
     // Free imports table contents
-    if (p.imports.strings) {
-        for(size_t i=0; i<p.imports.count; i++) free(p.imports.strings[i]);
-        free(p.imports.strings);
-    }
+    strtab_free(&p.imports);
 
     if (canonical_in_path) free(canonical_in_path);
     
-- 
2.43.0


From e8334fb64e7d269a3fa2cfc488a949069f968924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:35 +0000
Subject: [PATCH 26/36] fix: encode and decode keep values exact, check them
 against their types and report every error

The JSON binding clamped or cut numbers silently, compared keys without
regard to case, mixed up nested and empty arrays, never ended arrays that
last until the end of the data, overran fixed stacks and buffers, and
accepted text after the document. Image and file errors went unnoticed.
---
 include/cli_helpers.h  |  58 ++-
 src/cli/cli_helpers.c  |  79 ++--
 src/cli/cmd_decode.c   |  60 ++-
 src/cli/cmd_encode.c   |  91 ++--
 src/cli/json_binding.c | 972 +++++++++++++++++++++++++++--------------
 5 files changed, 822 insertions(+), 438 deletions(-)

diff --git a/include/cli_helpers.h b/include/cli_helpers.h
index 0fd7b66..a48a2c5 100644
--- a/include/cli_helpers.h
+++ b/include/cli_helpers.h
@@ -23,30 +23,54 @@ typedef struct {
     const char** string_table; 
     const uint8_t* bytecode;
     size_t bytecode_len;
+    cnd_program program;
 } ILFile;
 int load_il(const char* path, ILFile* il);
 void free_il(ILFile* il);
 
+// --- JSON Documents ---
+
+// Parses exactly one JSON object. Numbers keep their text in `valuestring`, so
+// that integers beyond the precision of a double are not rounded.
+cJSON* json_parse_object(const char* text, size_t len);
+
 // --- VM IO Callback (JSON Binding) ---
+
+// A struct or array that the VM is inside of
+typedef struct {
+    cJSON* node;        // The JSON object or array (NULL: an array missing from the input)
+    cJSON* parent;      // What contains the node (only for arrays while decoding)
+    cJSON* next;        // Next element (only for arrays while encoding)
+    const char* path;   // Full name of the field
+    bool is_array;
+    bool until_eof;     // Array without a start event: it ends with the data
+    bool hex;           // Byte array to be printed as a hex string
+} IOFrame;
+
 typedef struct {
-    ILFile* il;
-    cJSON* stack[32]; // Stack for nested objects
-    int depth;
-
-    // For robust array handling
-    cJSON* array_stack[32]; // Stack for current array cJSON object
-    int array_index_stack[32]; // Stack for current index within that array
-    int array_start_depth[32]; // Stack for io->depth when array started
-    int array_depth; // Current depth in array stack
-    
-    int hex_mode; // Flag to enable hex string output for byte arrays
-
-    // State for hex string accumulation for current byte array
-    bool in_hex_byte_array;
-    char* hex_str_buffer;
-    size_t hex_str_buffer_len;
-    size_t hex_str_buffer_capacity;
+    const ILFile* il;
+    cJSON* root;
+    int hex_mode;           // Print byte arrays as hex strings
+
+    IOFrame* frames;
+    size_t frame_count;
+    size_t frame_capacity;
+    size_t open_arrays;
+
+    uint8_t* float_keys;    // Bit per key: fields whose value is a floating point number
+
+    // Encoding an array that lasts until the end of the data: set once its last
+    // element is written, so that the message can be made exactly that long
+    bool at_end;
+    size_t end_size;
+    bool more_space;        // Elements are left at the end of the buffer
+
+    char error[320];        // First error, empty if there is none
 } IOCtx;
+
+int json_io_init(IOCtx* io, const ILFile* il, cJSON* root, int hex_mode);
+void json_io_restart(IOCtx* io);
+void json_io_free(IOCtx* io);
 cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr);
 
 
diff --git a/src/cli/cli_helpers.c b/src/cli/cli_helpers.c
index 2eb3ebd..686475c 100644
--- a/src/cli/cli_helpers.c
+++ b/src/cli/cli_helpers.c
@@ -8,48 +8,49 @@
 // File IO Helpers
 // =================================================================================================
 
+// Reads to the end of the file, whatever its kind; a zero byte follows the data
 uint8_t* read_file_bytes(const char* path, size_t* out_len) {
     FILE* f = fopen(path, "rb");
     if (!f) return NULL;
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    uint8_t* buf = malloc(size);
-    if (buf) fread(buf, 1, size, f);
+    size_t len = 0, cap = 4096;
+    uint8_t* buf = malloc(cap);
+    while (buf) {
+        len += fread(buf + len, 1, cap - 1 - len, f);
+        if (len < cap - 1) break; // End of file or error
+        cap *= 2;
+        uint8_t* bigger = realloc(buf, cap);
+        if (!bigger) free(buf);
+        buf = bigger;
+    }
+    if (buf && ferror(f)) {
+        free(buf);
+        buf = NULL;
+    }
     fclose(f);
-    if (out_len) *out_len = size;
+    if (!buf) return NULL;
+    buf[len] = 0;
+    if (out_len) *out_len = len;
     return buf;
 }
 
 char* read_file_text(const char* path) {
-    FILE* f = fopen(path, "rb");
-    if (!f) return NULL;
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    char* buf = malloc(size + 1);
-    if (buf) {
-        fread(buf, 1, size, f);
-        buf[size] = '\0';
-    }
-    fclose(f);
-    return buf;
+    return (char*)read_file_bytes(path, NULL);
 }
 
 int write_file_bytes(const char* path, const uint8_t* data, size_t len) {
     FILE* f = fopen(path, "wb");
     if (!f) return 0;
-    fwrite(data, 1, len, f);
-    fclose(f);
-    return 1;
+    int ok = fwrite(data, 1, len, f) == len;
+    if (fclose(f) != 0) ok = 0;
+    return ok;
 }
 
 int write_file_text(const char* path, const char* text) {
     FILE* f = fopen(path, "w");
     if (!f) return 0;
-    fputs(text, f);
-    fclose(f);
-    return 1;
+    int ok = fputs(text, f) >= 0;
+    if (fclose(f) != 0) ok = 0;
+    return ok;
 }
 
 // =================================================================================================
@@ -57,34 +58,36 @@ int write_file_text(const char* path, const char* text) {
 // =================================================================================================
 
 int load_il(const char* path, ILFile* il) {
+    memset(il, 0, sizeof(*il));
     il->raw_data = read_file_bytes(path, &il->raw_len);
     if (!il->raw_data) return 0;
     
-    if (il->raw_len < 16 || memcmp(il->raw_data, "CNDIL", 5) != 0) {
-        printf("Invalid IL file magic\n");
+    if (cnd_program_load_il(&il->program, il->raw_data, il->raw_len) != CND_ERR_OK) {
+        printf("Invalid IL file\n");
+        free_il(il);
         return 0;
     }
     
-    il->str_count = *(uint16_t*)(il->raw_data + 6);
-    uint32_t str_offset = *(uint32_t*)(il->raw_data + 8);
-    uint32_t bc_offset = *(uint32_t*)(il->raw_data + 12);
-    
-    if (str_offset > il->raw_len || bc_offset > il->raw_len) return 0;
-
-    il->string_table = malloc(il->str_count * sizeof(char*));
-    const char* ptr = (const char*)(il->raw_data + str_offset);
+    il->str_count = il->program.string_count;
+    il->string_table = malloc((il->str_count + 1) * sizeof(char*));
+    if (!il->string_table) {
+        free_il(il);
+        return 0;
+    }
+    const char* ptr = il->program.string_table;
     for (int i = 0; i < il->str_count; i++) {
         il->string_table[i] = ptr;
         ptr += strlen(ptr) + 1;
     }
     
-    il->bytecode = il->raw_data + bc_offset;
-    il->bytecode_len = il->raw_len - bc_offset;
+    il->bytecode = il->program.bytecode;
+    il->bytecode_len = il->program.bytecode_len;
     
     return 1;
 }
 
 void free_il(ILFile* il) {
-    if (il->raw_data) free(il->raw_data);
-    if (il->string_table) free(il->string_table);
+    free(il->raw_data);
+    free(il->string_table);
+    memset(il, 0, sizeof(*il));
 }
diff --git a/src/cli/cmd_decode.c b/src/cli/cmd_decode.c
index d6dff1d..c872ed3 100644
--- a/src/cli/cmd_decode.c
+++ b/src/cli/cmd_decode.c
@@ -16,44 +16,38 @@ int cmd_decode(int argc, char** argv) {
     
     size_t bin_len;
     uint8_t* bin_data = read_file_bytes(argv[3], &bin_len);
-    if (!bin_data) { printf("Failed to read binary\n"); return 1; }
+    if (!bin_data) { printf("Failed to read binary\n"); free_il(&il); return 1; }
     
+    int result = 1;
     cJSON* root = cJSON_CreateObject();
-    static IOCtx io_ctx; // Made static to persist
-    memset(&io_ctx, 0, sizeof(IOCtx)); // Initialize all fields to 0
-    io_ctx.il = &il;
-    io_ctx.stack[0] = root;
-    io_ctx.depth = 0;
-    io_ctx.array_depth = 0; // Initialize array depth
-    io_ctx.hex_mode = hex_mode;
-    io_ctx.in_hex_byte_array = false; // Initialize new hex-related fields
-    io_ctx.hex_str_buffer = NULL;
-    io_ctx.hex_str_buffer_len = 0;
-    io_ctx.hex_str_buffer_capacity = 0;
-    
-    cnd_vm_ctx vm;
-    cnd_program program;
-    cnd_program_load(&program, il.bytecode, il.bytecode_len);
-    cnd_init(&vm, CND_MODE_DECODE, &program, bin_data, bin_len, json_io_callback, &io_ctx);
-    
-    cnd_error_t err = cnd_execute(&vm);
-    if (err != CND_ERR_OK) {
-        printf("VM Error: %d\n", err);
-        return 1;
+    IOCtx io_ctx;
+    if (!json_io_init(&io_ctx, &il, root, hex_mode)) {
+        fprintf(stderr, "Out of memory\n");
+    } else {
+        cnd_vm_ctx vm;
+        cnd_init(&vm, CND_MODE_DECODE, &il.program, bin_data, bin_len, json_io_callback, &io_ctx);
+        
+        cnd_error_t err = cnd_execute(&vm);
+        if (err != CND_ERR_OK) {
+            if (err == CND_ERR_CALLBACK && io_ctx.error[0]) printf("%s\n", io_ctx.error);
+            printf("VM Error: %d (%s)\n", err, cnd_error_string(err));
+        } else {
+            char* out_json = cJSON_Print(root);
+            if (!out_json) {
+                printf("Failed to render JSON\n");
+            } else if (!write_file_text(argv[4], out_json)) {
+                printf("Failed to write %s\n", argv[4]);
+            } else {
+                printf("Decoded to %s\n", argv[4]);
+                result = 0;
+            }
+            free(out_json);
+        }
+        json_io_free(&io_ctx);
     }
     
-    char* out_json = cJSON_Print(root);
-    if (!out_json) {
-        printf("Failed to render JSON\n");
-        return 1;
-    }
-    
-    write_file_text(argv[4], out_json);
-    printf("Decoded to %s\n", argv[4]);
-    
-    free(out_json);
     cJSON_Delete(root);
     free(bin_data);
     free_il(&il);
-    return 0;
+    return result;
 }
diff --git a/src/cli/cmd_encode.c b/src/cli/cmd_encode.c
index fa46d91..97154c4 100644
--- a/src/cli/cmd_encode.c
+++ b/src/cli/cmd_encode.c
@@ -1,5 +1,44 @@
 #include "cli_helpers.h"
 
+#define FIRST_BUFFER_SIZE 1024
+#define MAX_BUFFER_SIZE ((size_t)256 * 1024 * 1024)
+
+// Encodes into a buffer that is as large as needed. Returns NULL on error.
+static uint8_t* encode_json(const ILFile* il, IOCtx* io, size_t* out_len) {
+    size_t size = FIRST_BUFFER_SIZE;
+    bool exact = false;
+    
+    for (;;) {
+        uint8_t* buffer = calloc(1, size + 1);
+        if (!buffer) {
+            fprintf(stderr, "Out of memory\n");
+            return NULL;
+        }
+        
+        cnd_vm_ctx vm;
+        json_io_restart(io);
+        cnd_init(&vm, CND_MODE_ENCODE, &il->program, buffer, size, json_io_callback, io);
+        cnd_error_t err = cnd_execute(&vm);
+        if (err == CND_ERR_OK) {
+            *out_len = vm.cursor + (vm.bit_offset > 0 ? 1 : 0);
+            return buffer;
+        }
+        free(buffer);
+        
+        if (!exact && err == CND_ERR_CALLBACK && io->at_end) {
+            // Arrays without a count end where the message ends
+            size = io->end_size;
+            exact = true;
+        } else if (!exact && (err == CND_ERR_OOB || (err == CND_ERR_CALLBACK && io->more_space)) && size < MAX_BUFFER_SIZE) {
+            size *= 2;
+        } else {
+            if (err == CND_ERR_CALLBACK && io->error[0]) fprintf(stderr, "%s\n", io->error);
+            fprintf(stderr, "VM Error: %d (%s)\n", err, cnd_error_string(err));
+            return NULL;
+        }
+    }
+}
+
 int cmd_encode(int argc, char** argv) {
     if (argc < 5) {
         printf("Usage: cnd encode <schema.il> <input.json> <output.bin>\n");
@@ -9,44 +48,30 @@ int cmd_encode(int argc, char** argv) {
     ILFile il;
     if (!load_il(argv[2], &il)) { printf("Failed to load IL\n"); return 1; }
     
-    char* json_text = read_file_text(argv[3]);
-    if (!json_text) { printf("Failed to read JSON\n"); return 1; }
+    size_t json_len;
+    char* json_text = (char*)read_file_bytes(argv[3], &json_len);
+    if (!json_text) { printf("Failed to read JSON\n"); free_il(&il); return 1; }
     
-    cJSON* root = cJSON_Parse(json_text);
+    cJSON* root = json_parse_object(json_text, json_len);
     free(json_text);
-    if (!root) { printf("Failed to parse JSON\n"); return 1; }
+    if (!root) { printf("Failed to parse JSON\n"); free_il(&il); return 1; }
     
-    // Encode
-    uint8_t buffer[1024]; 
-    memset(buffer, 0, sizeof(buffer));
-    
-    static IOCtx io_ctx; // Made static to persist
-    io_ctx.il = &il;
-    io_ctx.stack[0] = root;
-    io_ctx.depth = 0;
-    io_ctx.array_depth = 0; // Initialize array depth
-    
-    cnd_vm_ctx vm;
-    cnd_program program;
-    cnd_program_load(&program, il.bytecode, il.bytecode_len);
-    cnd_init(&vm, CND_MODE_ENCODE, &program, buffer, sizeof(buffer), json_io_callback, &io_ctx);
-    
-    cnd_error_t err = cnd_execute(&vm);
-    //fprintf(stderr, "DEBUG: cnd_execute returned %d\n", err);
-    if (err != CND_ERR_OK) {
-        fprintf(stderr, "VM Error: %d\n", err);
-        return 1;
+    int result = 1;
+    IOCtx io_ctx;
+    if (!json_io_init(&io_ctx, &il, root, 0)) {
+        fprintf(stderr, "Out of memory\n");
+    } else {
+        size_t len = 0;
+        uint8_t* buffer = encode_json(&il, &io_ctx, &len);
+        if (buffer) {
+            if (write_file_bytes(argv[4], buffer, len)) result = 0;
+            else printf("Failed to write %s\n", argv[4]);
+            free(buffer);
+        }
+        json_io_free(&io_ctx);
     }
     
-    // fprintf(stderr, "DEBUG: Writing file...\n");
-    size_t final_len = vm.cursor;
-    if (vm.bit_offset > 0) final_len++;
-    write_file_bytes(argv[4], buffer, final_len);
-    // fprintf(stderr, "Encoded %zu bytes to %s\n", final_len, argv[4]);
-    
-    // fprintf(stderr, "DEBUG: Cleaning up...\n");
     cJSON_Delete(root);
     free_il(&il);
-    // fprintf(stderr, "DEBUG: Done.\n");
-    return 0;
+    return result;
 }
diff --git a/src/cli/json_binding.c b/src/cli/json_binding.c
index 96b178d..781f801 100644
--- a/src/cli/json_binding.c
+++ b/src/cli/json_binding.c
@@ -2,219 +2,249 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <inttypes.h>
+#include <errno.h>
+#include <math.h>
+#include <float.h>
 #include "cli_helpers.h"
 #include <cJSON.h>
 #include "concordia.h"
 #include "compiler.h"
 
 // =================================================================================================
-// JSON IO Callback & Helpers
+// JSON Documents
 // =================================================================================================
 
-static void append_hex_byte(IOCtx* io, uint8_t byte) {
-    if (io->hex_str_buffer_len + 3 > io->hex_str_buffer_capacity) {
-        io->hex_str_buffer_capacity = (io->hex_str_buffer_capacity == 0) ? 64 : io->hex_str_buffer_capacity * 2;
-        char* new_ptr = realloc(io->hex_str_buffer, io->hex_str_buffer_capacity);
-        if (!new_ptr) return; // OOM
-        io->hex_str_buffer = new_ptr;
+// Length of a well-formed UTF-8 sequence at `s`, or 0
+static size_t utf8_sequence(const uint8_t* s, size_t len) {
+    if (len == 0) return 0;
+    if (s[0] < 0x80) return 1;
+    if (s[0] < 0xC2 || s[0] > 0xF4) return 0;
+    size_t n = s[0] < 0xE0 ? 2 : s[0] < 0xF0 ? 3 : 4;
+    if (len < n) return 0;
+    for (size_t i = 1; i < n; i++) {
+        if ((s[i] & 0xC0) != 0x80) return 0;
     }
-    sprintf(io->hex_str_buffer + io->hex_str_buffer_len, "%02X", byte);
-    io->hex_str_buffer_len += 2;
+    if (s[0] == 0xE0 && s[1] < 0xA0) return 0; // Overlong
+    if (s[0] == 0xED && s[1] > 0x9F) return 0; // Surrogate
+    if (s[0] == 0xF0 && s[1] < 0x90) return 0; // Overlong
+    if (s[0] == 0xF4 && s[1] > 0x8F) return 0; // Beyond U+10FFFF
+    return n;
 }
 
-static cnd_error_t handle_array_start(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, const char* key_name, cJSON* parent, void* ptr) {
-    // Determine if this array should be treated as a Hex String (byte array)
-    bool is_hex_array = false;
-    if (io->hex_mode && ctx->mode == CND_MODE_DECODE) {
-        if (type == OP_RAW_BYTES) {
-            is_hex_array = true;
-        } else {
-            // Peek IL for element type
-            const uint8_t* ip = ctx->program->bytecode + ctx->ip;
-            const uint8_t* end = ctx->program->bytecode + ctx->program->bytecode_len;
-            if (ip < end) {
-                // Skip current instruction args to find NEXT instruction
-                if (type == OP_ARR_FIXED) ip += 6; // Key(2) + Count(4)
-                else ip += 2; // Key(2) for ARR_PRE
-                
-                if (ip < end && *ip == OP_IO_U8) is_hex_array = true;
-            }
-        }
+// Length of a string that can be shown as JSON, or -1
+static long text_length(const char* s, size_t len) {
+    for (size_t i = 0; i < len;) {
+        size_t n = s[i] ? utf8_sequence((const uint8_t*)s + i, len - i) : 0;
+        if (n == 0) return -1;
+        i += n;
     }
+    return (long)len;
+}
 
-    if (ctx->mode == CND_MODE_ENCODE) {
-        cJSON* item = cJSON_GetObjectItem(parent, key_name);
-        if (!item || (!cJSON_IsArray(item) && !(type == OP_RAW_BYTES && cJSON_IsString(item)))) {
-            // If missing or wrong type, write 0 length
-            if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = 0;
-            else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = 0;
-            else if (type == OP_ARR_PRE_U32) *(uint32_t*)ptr = 0;
-            else if (type == OP_ARR_FIXED) *(uint32_t*)ptr = 0;
-            // For RAW_BYTES encode, we need to handle data copy elsewhere or fail here
-            return CND_ERR_OK; // Treat as empty/skip
-        }
-        
-        // Push stack
-        if (io->array_depth >= 31) return CND_ERR_OOB;
-        io->array_stack[io->array_depth] = item;
-        io->array_index_stack[io->array_depth] = 0;
-        io->array_start_depth[io->array_depth] = io->depth;
-        io->array_depth++;
-
-        // Write length
-        if (type != OP_RAW_BYTES && type != OP_ARR_FIXED && type != OP_ARR_DYNAMIC) {
-            int len = cJSON_GetArraySize(item);
-            if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = (uint8_t)len;
-            else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = (uint16_t)len;
-            else if (type == OP_ARR_PRE_U32) *(uint32_t*)ptr = (uint32_t)len;
-        }
-    } else { // DECODE
-        if (io->array_depth >= 31) return CND_ERR_OOB;
-        
-        cJSON* new_item;
-        if (is_hex_array) {
-            new_item = cJSON_CreateString(""); // Placeholder
-            io->in_hex_byte_array = true;
-            io->hex_str_buffer_len = 0;
-            if (io->hex_str_buffer) free(io->hex_str_buffer);
-            io->hex_str_buffer = NULL;
-            io->hex_str_buffer_capacity = 0;
-        } else {
-            new_item = cJSON_CreateArray();
-        }
-        
-        cJSON_AddItemToObject(parent, key_name, new_item);
-        
-        io->array_stack[io->array_depth] = new_item;
-        io->array_index_stack[io->array_depth] = 0;
-        io->array_start_depth[io->array_depth] = io->depth;
-        io->array_depth++;
+static bool is_digit(char c) { return c >= '0' && c <= '9'; }
+
+// Length of the number at `s`, or 0 if it is not written as JSON demands
+static size_t number_length(const char* s) {
+    size_t i = 0;
+    if (s[i] == '-') i++;
+    if (!is_digit(s[i])) return 0;
+    if (s[i] == '0' && is_digit(s[i + 1])) return 0;
+    while (is_digit(s[i])) i++;
+    if (s[i] == '.') {
+        if (!is_digit(s[++i])) return 0;
+        while (is_digit(s[i])) i++;
     }
-    return CND_ERR_OK;
+    if (s[i] == 'e' || s[i] == 'E') {
+        i++;
+        if (s[i] == '+' || s[i] == '-') i++;
+        if (!is_digit(s[i])) return 0;
+        while (is_digit(s[i])) i++;
+    }
+    return i;
 }
 
-static cnd_error_t handle_primitive(IOCtx* io, cnd_vm_ctx* ctx, uint8_t type, void* ptr, cJSON* item) {
-    if (ctx->mode == CND_MODE_ENCODE) {
-        if (!item) {
-            // Allow implicit zero/empty if not found - write only the correct size
-            switch (type) {
-                case OP_IO_U8:  case OP_IO_I8:  case OP_IO_BOOL: case OP_IO_BIT_BOOL: *(uint8_t*)ptr = 0; break;
-                case OP_IO_U16: case OP_IO_I16: *(uint16_t*)ptr = 0; break;
-                case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: *(uint32_t*)ptr = 0; break;
-                case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: case OP_IO_BIT_U: case OP_IO_BIT_I: *(uint64_t*)ptr = 0; break;
-                default: break;
-            }
-            return CND_ERR_OK;
-        }
-        // Extract value
-        switch (type) {
-            case OP_IO_U8:  *(uint8_t*)ptr  = (uint8_t)item->valueint; break;
-            case OP_IO_U16: *(uint16_t*)ptr = (uint16_t)item->valueint; break;
-            case OP_IO_U32: *(uint32_t*)ptr = (uint32_t)item->valueint; break;
-            case OP_IO_U64: *(uint64_t*)ptr = (uint64_t)item->valuedouble; break;
-            case OP_IO_I8:  *(int8_t*)ptr   = (int8_t)item->valueint; break;
-            case OP_IO_I16: *(int16_t*)ptr  = (int16_t)item->valueint; break;
-            case OP_IO_I32: *(int32_t*)ptr  = (int32_t)item->valueint; break;
-            case OP_IO_I64: *(int64_t*)ptr  = (int64_t)item->valuedouble; break;
-            case OP_IO_F32: *(float*)ptr    = (float)item->valuedouble; break;
-            case OP_IO_F64: *(double*)ptr   = (double)item->valuedouble; break;
-            case OP_IO_BIT_U: *(uint64_t*)ptr = (uint64_t)item->valueint; break;
-            case OP_IO_BIT_I: *(int64_t*)ptr  = (int64_t)item->valueint; break;
-            case OP_IO_BOOL:
-            case OP_IO_BIT_BOOL: *(uint8_t*)ptr = cJSON_IsTrue(item) ? 1 : 0; break;
-            case OP_STR_NULL: 
-            case OP_STR_PRE_U8:
-            case OP_STR_PRE_U16:
-            case OP_STR_PRE_U32: {
-                const char* s = cJSON_IsString(item) ? item->valuestring : "";
-                *(const char**)ptr = s;
-                break;
-            }
-            case OP_RAW_BYTES: {
-                // Encode Hex String to Bytes
-                if (cJSON_IsString(item)) {
-                    const char* hex = item->valuestring;
-                    size_t len = strlen(hex);
-                    uint8_t* b = (uint8_t*)ptr;
-                    for(size_t i=0; i<len/2; i++) {
-                        sscanf(hex + i*2, "%2hhX", &b[i]);
-                    }
+// What cJSON_Parse lets through although it is not JSON, or cannot be kept in a C string
+static bool is_strict_json(const char* text, size_t len) {
+    bool in_string = false;
+    for (size_t i = 0; i < len;) {
+        uint8_t c = (uint8_t)text[i];
+        if (in_string) {
+            if (c < 0x20) return false;
+            if (c == '\\') {
+                if (text[i + 1] == 'u') {
+                    if (strspn(text + i + 2, "0123456789abcdefABCDEF") < 4) return false;
+                    if (strncmp(text + i + 2, "0000", 4) == 0) return false;
                 }
-                break;
+                i += text[i + 1] ? 2 : 1;
+                continue;
             }
+            if (c == '"') in_string = false;
+            size_t n = utf8_sequence((const uint8_t*)text + i, len - i);
+            if (n == 0) return false;
+            i += n;
+        } else if (c == '-' || is_digit((char)c)) {
+            size_t n = number_length(text + i);
+            if (n == 0) return false;
+            i += n;
+        } else {
+            if (c <= 0x20 && c != ' ' && c != '\t' && c != '\r' && c != '\n') return false;
+            if (c == '"') in_string = true;
+            i++;
         }
-    } else { // DECODE
-        // Special case: Hex Byte accumulation
-        if (io->in_hex_byte_array && type == OP_IO_U8) {
-            append_hex_byte(io, *(uint8_t*)ptr);
-            return CND_ERR_OK;
-        }
+    }
+    return true;
+}
 
-        cJSON* val = NULL;
-        switch (type) {
-            case OP_IO_U8:  val = cJSON_CreateNumber(*(uint8_t*)ptr); break;
-            case OP_IO_U16: val = cJSON_CreateNumber(*(uint16_t*)ptr); break;
-            case OP_IO_U32: val = cJSON_CreateNumber(*(uint32_t*)ptr); break;
-            case OP_IO_U64: val = cJSON_CreateNumber((double)*(uint64_t*)ptr); break;
-            case OP_IO_I8:  val = cJSON_CreateNumber(*(int8_t*)ptr); break;
-            case OP_IO_I16: val = cJSON_CreateNumber(*(int16_t*)ptr); break;
-            case OP_IO_I32: val = cJSON_CreateNumber(*(int32_t*)ptr); break;
-            case OP_IO_I64: val = cJSON_CreateNumber((double)*(int64_t*)ptr); break;
-            case OP_IO_F32: val = cJSON_CreateNumber(*(float*)ptr); break;
-            case OP_IO_F64: val = cJSON_CreateNumber(*(double*)ptr); break;
-            case OP_IO_BIT_U: val = cJSON_CreateNumber((double)*(uint64_t*)ptr); break;
-            case OP_IO_BIT_I: val = cJSON_CreateNumber((double)*(int64_t*)ptr); break;
-            case OP_IO_BOOL: case OP_IO_BIT_BOOL: val = cJSON_CreateBool(*(uint8_t*)ptr); break;
-            case OP_STR_NULL: val = cJSON_CreateString((const char*)ptr); break;
-            case OP_STR_PRE_U8: { 
-                uint8_t len = ((uint8_t*)ptr)[-1];
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U16: {
-                uint16_t len = (ctx->endianness==CND_LE) ? (((uint8_t*)ptr)[-2]|((uint8_t*)ptr)[-1]<<8) : (((uint8_t*)ptr)[-2]<<8|((uint8_t*)ptr)[-1]);
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U32: {
-                // Simplified logic, assume little endian for temp
-                uint32_t len = 0; memcpy(&len, (uint8_t*)ptr-4, 4); 
-                // Proper:
-                uint8_t* p = (uint8_t*)ptr-4;
-                len = p[0] | p[1]<<8 | p[2]<<16 | p[3]<<24; // Assume LE for now or fix with ctx
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_RAW_BYTES: {
-                // Should ideally read count from IL.
-                // For now, ignore single RAW_BYTES in decode.
-                break;
+// Gives every number the text it was written as. The items are visited in the order of the text.
+static bool keep_number_text(cJSON* item, const char** pos) {
+    for (; item; item = item->next) {
+        if (cJSON_IsNumber(item)) {
+            const char* p = *pos;
+            while (*p != '-' && !is_digit(*p)) {
+                if (*p++ != '"') continue;
+                while (*p != '"') p += *p == '\\' ? 2 : 1;
+                p++;
             }
+            size_t len = number_length(p);
+            item->valuestring = cJSON_malloc(len + 1);
+            if (!item->valuestring) return false;
+            memcpy(item->valuestring, p, len);
+            item->valuestring[len] = '\0';
+            *pos = p + len;
         }
-        
-        if (val) {
-            // Add to parent
-            cJSON* target = NULL;
-            if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
-                target = io->array_stack[io->array_depth - 1];
-                io->array_index_stack[io->array_depth - 1]++;
-                cJSON_AddItemToArray(target, val);
-            } else {
-                // We need to find the key_name for adding to object.
-                // This helper logic is tricky because `key_name` is not passed here.
-                // Caller must handle adding.
-                // Wait, I removed `key_name` argument?
-                // I need to return `val` to caller.
-                return CND_ERR_OK; // Caller adds `val`.
-            }
-        }
-        // This helper is slightly broken because `val` needs to be added.
-        // Let's fix this by adding `val` inside the caller or passing needed context.
-        // But `json_io_callback` is monolithic.
-        // I will merge `handle_primitive` back into `json_io_callback` logic flow in `json_io_callback` for simplicity in this file.
-        // See below.
+        if (item->child && !keep_number_text(item->child, pos)) return false;
     }
-    return CND_ERR_OK;
+    return true;
+}
+
+cJSON* json_parse_object(const char* text, size_t len) {
+    if (memchr(text, 0, len)) return NULL;
+    if (!is_strict_json(text, len)) return NULL;
+    cJSON* root = cJSON_ParseWithOpts(text, NULL, 1);
+    const char* pos = text;
+    if (root && (!cJSON_IsObject(root) || !keep_number_text(root, &pos))) {
+        cJSON_Delete(root);
+        root = NULL;
+    }
+    return root;
+}
+
+// The value of a number without fraction, if it has `bits` bits at most (including the sign)
+static bool get_integer(const cJSON* item, int bits, bool is_signed, uint64_t* out) {
+    if (!cJSON_IsNumber(item)) return false;
+    const char* s = item->valuestring;
+    bool negative = false;
+    uint64_t magnitude = 0;
+    if (s && !strpbrk(s, ".eE")) {
+        negative = *s == '-';
+        errno = 0;
+        magnitude = strtoull(negative ? s + 1 : s, NULL, 10);
+        if (errno == ERANGE) return false;
+    } else {
+        double d = item->valuedouble;
+        if (!(fabs(d) < 18446744073709551616.0) || d != floor(d)) return false;
+        negative = d < 0;
+        magnitude = (uint64_t)fabs(d);
+    }
+    if (magnitude == 0) negative = false;
+    
+    uint64_t max = bits == 64 ? UINT64_MAX : ((uint64_t)1 << bits) - 1;
+    if (is_signed) max >>= 1;
+    if (negative && !is_signed) return false;
+    if (magnitude > max + (negative ? 1 : 0)) return false;
+    *out = negative ? 0 - magnitude : magnitude;
+    return true;
+}
+
+static cJSON* new_unsigned(uint64_t v) {
+    char text[32];
+    snprintf(text, sizeof(text), "%" PRIu64, v);
+    return cJSON_CreateRaw(text);
+}
+
+static cJSON* new_signed(int64_t v) {
+    char text[32];
+    snprintf(text, sizeof(text), "%" PRId64, v);
+    return cJSON_CreateRaw(text);
+}
+
+// The shortest text that reads back as the same number; JSON has none for NaN and infinity
+static cJSON* new_double(double v) {
+    char text[40];
+    for (int digits = 15; digits <= 17; digits++) {
+        snprintf(text, sizeof(text), "%.*g", digits, v);
+        if (strtod(text, NULL) == v) break;
+    }
+    cJSON* item = cJSON_CreateRaw(v - v == 0 ? text : "null");
+    if (item) item->valuedouble = v;
+    return item;
+}
+
+// =================================================================================================
+// Binding State
+// =================================================================================================
+
+void json_io_restart(IOCtx* io) {
+    io->frame_count = 1;
+    io->frames[0] = (IOFrame){0};
+    io->frames[0].node = io->root;
+    io->frames[0].path = "";
+    io->open_arrays = 0;
+    io->at_end = false;
+    io->more_space = false;
+    io->error[0] = '\0';
+}
+
+int json_io_init(IOCtx* io, const ILFile* il, cJSON* root, int hex_mode) {
+    memset(io, 0, sizeof(*io));
+    io->il = il;
+    io->root = root;
+    io->hex_mode = hex_mode;
+    io->frame_capacity = 16;
+    io->frames = malloc(io->frame_capacity * sizeof(IOFrame));
+    io->float_keys = calloc(1, 65536 / 8);
+    if (!root || !io->frames || !io->float_keys) {
+        json_io_free(io);
+        return 0;
+    }
+    json_io_restart(io);
+    return 1;
+}
+
+void json_io_free(IOCtx* io) {
+    free(io->frames);
+    free(io->float_keys);
+    io->frames = NULL;
+    io->float_keys = NULL;
+}
+
+static cnd_error_t fail(IOCtx* io, const char* name, const char* what) {
+    if (!io->error[0]) snprintf(io->error, sizeof(io->error), "%s: %s", *name ? name : "(message)", what);
+    return CND_ERR_CALLBACK;
+}
+
+static IOFrame* top_frame(IOCtx* io) {
+    return &io->frames[io->frame_count - 1];
+}
+
+static IOFrame* push_frame(IOCtx* io, cJSON* node, const char* path, bool is_array) {
+    if (io->frame_count == io->frame_capacity) {
+        IOFrame* bigger = realloc(io->frames, io->frame_capacity * 2 * sizeof(IOFrame));
+        if (!bigger) return NULL;
+        io->frames = bigger;
+        io->frame_capacity *= 2;
+    }
+    IOFrame* frame = &io->frames[io->frame_count++];
+    *frame = (IOFrame){0};
+    frame->node = node;
+    frame->path = path;
+    frame->is_array = is_array;
+    if (is_array) {
+        frame->next = node ? node->child : NULL;
+        io->open_arrays++;
+    }
+    return frame;
 }
 
 // Helper: get the last component of a dot-separated key (e.g., "position.x" -> "x")
@@ -223,159 +253,467 @@ static const char* get_json_key(const char* key_name) {
     return dot ? (dot + 1) : key_name;
 }
 
-cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr) {
-    IOCtx* io = (IOCtx*)ctx->user_ptr;
-    
-    // Get Key Name (full path)
-    const char* key_name_full = "";
-    if (key_id < io->il->str_count) key_name_full = io->il->string_table[key_id];
-    
-    // For JSON lookups, use only the last component (after the last dot)
-    const char* key_name = get_json_key(key_name_full);
+static cJSON* get_member(const cJSON* object, const char* name) {
+    return cJSON_IsObject(object) ? cJSON_GetObjectItemCaseSensitive(object, name) : NULL;
+}
 
-    // Get Current Context
-    cJSON* current = io->stack[io->depth];
-    
-    // Handle Structs
-    if (type == OP_ENTER_STRUCT) {
+// Follows a dotted name downwards from an object
+static cJSON* get_path(const cJSON* object, const char* path) {
+    cJSON* item = NULL;
+    while (object) {
+        size_t len = strcspn(path, ".");
+        char name[256];
+        if (len >= sizeof(name)) return NULL;
+        memcpy(name, path, len);
+        name[len] = '\0';
+        item = get_member(object, name);
+        if (path[len] == '\0') return item;
+        object = item;
+        path += len + 1;
+    }
+    return NULL;
+}
+
+// Finds the value that a name refers to: in the innermost struct that the name leads into
+static cJSON* find_value(const IOCtx* io, const char* name) {
+    for (size_t i = io->frame_count; i-- > 0;) {
+        const IOFrame* frame = &io->frames[i];
+        if (frame->is_array) continue;
+        size_t len = strlen(frame->path);
         cJSON* item = NULL;
-        // If in array, get/create next element
-        if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
-            if (ctx->mode == CND_MODE_ENCODE) {
-                item = cJSON_GetArrayItem(io->array_stack[io->array_depth - 1], io->array_index_stack[io->array_depth - 1]++);
-            } else {
-                item = cJSON_CreateObject();
-                cJSON_AddItemToArray(io->array_stack[io->array_depth - 1], item);
-                io->array_index_stack[io->array_depth - 1]++;
-            }
-        } else {
-            // In object
-            if (ctx->mode == CND_MODE_ENCODE) item = cJSON_GetObjectItem(current, key_name);
-            else {
-                item = cJSON_CreateObject();
-                cJSON_AddItemToObject(current, key_name, item);
-            }
+        if (len == 0) item = get_path(frame->node, name);
+        else if (strncmp(name, frame->path, len) == 0 && name[len] == '.') item = get_path(frame->node, name + len + 1);
+        if (item) return item;
+    }
+    for (size_t i = io->frame_count; i-- > 0;) {
+        cJSON* item = io->frames[i].is_array ? NULL : get_path(io->frames[i].node, name);
+        if (item) return item;
+    }
+    return NULL;
+}
+
+static void note_type(IOCtx* io, uint16_t key_id, uint8_t type) {
+    uint8_t bit = (uint8_t)(1 << (key_id & 7));
+    if (type == OP_IO_F32 || type == OP_IO_F64) io->float_keys[key_id >> 3] |= bit;
+    else io->float_keys[key_id >> 3] &= (uint8_t)~bit;
+}
+
+// =================================================================================================
+// Structs and Arrays
+// =================================================================================================
+
+static int hex_digit(char c) {
+    if (is_digit(c)) return c - '0';
+    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
+    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
+    return -1;
+}
+
+// Turns a string of hex digits into an array of bytes
+static cJSON* hex_to_array(const char* hex) {
+    if (strlen(hex) % 2 != 0) return NULL;
+    cJSON* array = cJSON_CreateArray();
+    for (; array && *hex; hex += 2) {
+        int high = hex_digit(hex[0]), low = hex_digit(hex[1]);
+        cJSON* byte = high >= 0 && low >= 0 ? cJSON_CreateNumber(high * 16 + low) : NULL;
+        if (!byte || !cJSON_AddItemToArray(array, byte)) {
+            cJSON_Delete(byte);
+            cJSON_Delete(array);
+            return NULL;
         }
-        
-        if (!item && ctx->mode == CND_MODE_ENCODE) return CND_ERR_CALLBACK;
-        io->stack[++io->depth] = item;
-        return CND_ERR_OK;
     }
+    return array;
+}
+
+// Turns an array of bytes into a string of hex digits
+static cJSON* array_to_hex(const cJSON* array) {
+    size_t count = (size_t)cJSON_GetArraySize(array), i = 0;
+    char* hex = malloc(count * 2 + 1);
+    if (!hex) return NULL;
+    for (const cJSON* item = array->child; item; item = item->next) {
+        snprintf(hex + i, 3, "%02X", (unsigned)strtoul(item->valuestring, NULL, 10));
+        i += 2;
+    }
+    hex[i] = '\0';
+    cJSON* value = cJSON_CreateString(hex);
+    free(hex);
+    return value;
+}
+
+// Finds the array to encode. Bytes may be given as a string of hex digits.
+static cnd_error_t get_array(IOCtx* io, cJSON* container, const char* key_name, bool bytes, cJSON** out) {
+    const char* name = get_json_key(key_name);
+    cJSON* node = get_member(container, name);
+    if (bytes && cJSON_IsString(node)) {
+        cJSON* array = hex_to_array(node->valuestring);
+        if (!array) return fail(io, key_name, "malformed hex string");
+        if (!cJSON_ReplaceItemInObjectCaseSensitive(container, name, array)) return fail(io, key_name, "out of memory");
+        node = array;
+    }
+    if (node && !cJSON_IsArray(node)) return fail(io, key_name, "array expected");
+    *out = node;
+    return CND_ERR_OK;
+}
+
+// An array that lasts until the end of the data has no start event: it begins with its first element
+static cnd_error_t begin_implicit_array(IOCtx* io, cnd_vm_ctx* ctx, const char* key_name, uint8_t type) {
+    if (ctx->loop_depth <= io->open_arrays) return CND_ERR_OK;
     
-    if (type == OP_EXIT_STRUCT) {
-        if (io->depth > 0) io->depth--;
+    IOFrame* parent = top_frame(io);
+    if (parent->is_array) return fail(io, key_name, "array of arrays");
+    cJSON* container = parent->node;
+    cJSON* node;
+    if (ctx->mode == CND_MODE_ENCODE) {
+        cnd_error_t err = get_array(io, container, key_name, type == OP_IO_U8, &node);
+        if (err != CND_ERR_OK) return err;
+    } else {
+        node = cJSON_CreateArray();
+        if (!node || !cJSON_AddItemToObject(container, get_json_key(key_name), node)) return fail(io, key_name, "out of memory");
+    }
+    IOFrame* frame = push_frame(io, node, key_name, true);
+    if (!frame) return fail(io, key_name, "out of memory");
+    frame->parent = container;
+    frame->until_eof = true;
+    frame->hex = io->hex_mode && ctx->mode == CND_MODE_DECODE && type == OP_IO_U8;
+    return CND_ERR_OK;
+}
+
+// The value for the next field while encoding (NULL if there is none)
+static cnd_error_t next_input(IOCtx* io, cnd_vm_ctx* ctx, const char* key_name, cJSON** out) {
+    IOFrame* frame = top_frame(io);
+    if (!frame->is_array) {
+        *out = get_member(frame->node, get_json_key(key_name));
         return CND_ERR_OK;
     }
+    if (frame->until_eof && !frame->next) {
+        // All elements are written: the message has to end here
+        io->at_end = true;
+        io->end_size = ctx->cursor + (ctx->bit_offset > 0 ? 1 : 0);
+        return CND_ERR_CALLBACK;
+    }
+    *out = frame->next;
+    if (frame->next) frame->next = frame->next->next;
+    return CND_ERR_OK;
+}
 
-    // Handle Arrays
-    if (type == OP_ARR_PRE_U8 || type == OP_ARR_PRE_U16 || type == OP_ARR_PRE_U32 || type == OP_ARR_FIXED || type == OP_RAW_BYTES || type == OP_ARR_DYNAMIC) {
-        return handle_array_start(io, ctx, type, key_name, current, ptr);
+static cnd_error_t add_output(IOCtx* io, const char* key_name, cJSON* value) {
+    IOFrame* frame = top_frame(io);
+    bool added = false;
+    if (value) added = frame->is_array ? cJSON_AddItemToArray(frame->node, value) : cJSON_AddItemToObject(frame->node, get_json_key(key_name), value);
+    if (added) return CND_ERR_OK;
+    cJSON_Delete(value);
+    return fail(io, key_name, "out of memory");
+}
+
+static cnd_error_t enter_struct(IOCtx* io, cnd_vm_ctx* ctx, const char* key_name) {
+    cJSON* node = NULL;
+    cnd_error_t err;
+    if (ctx->mode == CND_MODE_ENCODE) {
+        err = next_input(io, ctx, key_name, &node);
+        if (err != CND_ERR_OK) return err;
+        if (!cJSON_IsObject(node)) return fail(io, key_name, node ? "object expected" : "object missing");
+    } else {
+        node = cJSON_CreateObject();
+        err = add_output(io, key_name, node);
+        if (err != CND_ERR_OK) return err;
     }
+    if (!push_frame(io, node, key_name, false)) return fail(io, key_name, "out of memory");
+    return CND_ERR_OK;
+}
+
+static cnd_error_t start_array(IOCtx* io, cnd_vm_ctx* ctx, const char* key_name, uint8_t type, void* ptr) {
+    IOFrame* parent = top_frame(io);
+    if (parent->is_array) return fail(io, key_name, "array of arrays");
+    cJSON* container = parent->node;
+    cJSON* node;
+    uint32_t count = type == OP_ARR_PRE_U8 ? *(uint8_t*)ptr : type == OP_ARR_PRE_U16 ? *(uint16_t*)ptr : *(uint32_t*)ptr;
+    bool bytes = ctx->ip < ctx->program->bytecode_len && ctx->program->bytecode[ctx->ip] == OP_IO_U8;
+    bool hex = false;
     
-    if (type == OP_ARR_END) {
-        // Finalize hex string if needed
-        if (io->in_hex_byte_array && ctx->mode == CND_MODE_DECODE) {
-            cJSON* str = io->array_stack[io->array_depth - 1];
-            if (io->hex_str_buffer) {
-                cJSON_SetValuestring(str, io->hex_str_buffer);
-                free(io->hex_str_buffer); io->hex_str_buffer = NULL;
-            }
-            io->hex_str_buffer_len = 0;
-            io->hex_str_buffer_capacity = 0;
-            io->in_hex_byte_array = false;
+    if (ctx->mode == CND_MODE_ENCODE) {
+        cnd_error_t err = get_array(io, container, key_name, bytes, &node);
+        if (err != CND_ERR_OK) return err;
+        
+        size_t size = 0;
+        for (const cJSON* item = node ? node->child : NULL; item; item = item->next) size++;
+        if (type == OP_ARR_PRE_U8 || type == OP_ARR_PRE_U16 || type == OP_ARR_PRE_U32) {
+            if (size > (type == OP_ARR_PRE_U8 ? 0xFFu : type == OP_ARR_PRE_U16 ? 0xFFFFu : 0xFFFFFFFFu)) return fail(io, key_name, "too many elements");
+            count = (uint32_t)size;
+            if (type == OP_ARR_PRE_U8) *(uint8_t*)ptr = (uint8_t)count;
+            else if (type == OP_ARR_PRE_U16) *(uint16_t*)ptr = (uint16_t)count;
+            else *(uint32_t*)ptr = count;
+        } else if (node ? size != count : (type == OP_ARR_DYNAMIC && count > 0)) {
+            return fail(io, key_name, "wrong number of elements");
         }
-        if (io->array_depth > 0) io->array_depth--;
-        return CND_ERR_OK;
+    } else {
+        hex = io->hex_mode && bytes;
+        node = hex && count == 0 ? cJSON_CreateString("") : cJSON_CreateArray();
+        cnd_error_t err = add_output(io, key_name, node);
+        if (err != CND_ERR_OK) return err;
     }
+    if (count == 0) return CND_ERR_OK; // No elements, and no end event
+    
+    IOFrame* frame = push_frame(io, node, key_name, true);
+    if (!frame) return fail(io, key_name, "out of memory");
+    frame->parent = container;
+    frame->hex = hex;
+    return CND_ERR_OK;
+}
 
-    // Handle Control Flow
-    if (type == OP_CTX_QUERY || type == OP_LOAD_CTX) {
-        cJSON* item = cJSON_GetObjectItem(current, key_name);
-        if (!item) {
-            printf("JSON_BINDING: Query failed for key '%s'\n", key_name);
+static cnd_error_t end_array(IOCtx* io, cnd_vm_ctx* ctx) {
+    // Elements that are not visible to the host do not begin an implicit array
+    if (ctx->loop_depth > io->open_arrays) return CND_ERR_OK;
+    
+    IOFrame* frame = top_frame(io);
+    if (!frame->is_array) return fail(io, "", "unbalanced array");
+    if (ctx->mode == CND_MODE_ENCODE) {
+        if (frame->until_eof && frame->next) {
+            io->more_space = true;
             return CND_ERR_CALLBACK;
         }
-        if (cJSON_IsBool(item)) *(uint64_t*)ptr = cJSON_IsTrue(item) ? 1 : 0;
-        else *(uint64_t*)ptr = (uint64_t)item->valuedouble;
-        return CND_ERR_OK;
+    } else if (frame->hex) {
+        cJSON* value = array_to_hex(frame->node);
+        if (!value || !cJSON_ReplaceItemInObjectCaseSensitive(frame->parent, get_json_key(frame->path), value)) return fail(io, frame->path, "out of memory");
     }
+    io->frame_count--;
+    io->open_arrays--;
+    return CND_ERR_OK;
+}
 
-    if (type == OP_STORE_CTX) {
-        if (ctx->mode == CND_MODE_DECODE) {
-            uint64_t val = *(uint64_t*)ptr;
-            cJSON_AddNumberToObject(current, key_name, (double)val);
-        }
-        return CND_ERR_OK;
-    }
+// =================================================================================================
+// Values
+// =================================================================================================
+
+static uint16_t read_arg_u16(const cnd_vm_ctx* ctx) {
+    const uint8_t* p = ctx->program->bytecode + ctx->ip;
+    return (uint16_t)(p[-2] | (p[-1] << 8));
+}
 
-    // Handle Primitives
-    cJSON* item_to_process = NULL;
-    if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
-        if (ctx->mode == CND_MODE_ENCODE) {
-            item_to_process = cJSON_GetArrayItem(io->array_stack[io->array_depth - 1], io->array_index_stack[io->array_depth - 1]);
-            io->array_index_stack[io->array_depth - 1]++;
+static cnd_error_t encode_value(IOCtx* io, cnd_vm_ctx* ctx, const char* key_name, uint8_t type, void* ptr, const cJSON* item) {
+    uint64_t v = 0;
+    int bits = 0;
+    bool is_signed = false;
+    
+    switch (type) {
+        case OP_IO_U8:  bits = 8; break;
+        case OP_IO_U16: bits = 16; break;
+        case OP_IO_U32: bits = 32; break;
+        case OP_IO_U64: bits = 64; break;
+        case OP_IO_I8:  bits = 8; is_signed = true; break;
+        case OP_IO_I16: bits = 16; is_signed = true; break;
+        case OP_IO_I32: bits = 32; is_signed = true; break;
+        case OP_IO_I64: bits = 64; is_signed = true; break;
+        // The width is the last argument of the instruction
+        case OP_IO_BIT_U: bits = ctx->program->bytecode[ctx->ip - 1]; break;
+        case OP_IO_BIT_I: bits = ctx->program->bytecode[ctx->ip - 1]; is_signed = true; break;
+    }
+    
+    // Allow implicit zero/empty if not found - write only the correct size
+    if (bits > 0) {
+        if (bits > 64) bits = 64;
+        if (item && !get_integer(item, bits, is_signed, &v)) return fail(io, key_name, cJSON_IsNumber(item) ? "number out of range" : "number expected");
+        switch (type) {
+            case OP_IO_U8:  case OP_IO_I8:  *(uint8_t*)ptr  = (uint8_t)v; break;
+            case OP_IO_U16: case OP_IO_I16: *(uint16_t*)ptr = (uint16_t)v; break;
+            case OP_IO_U32: case OP_IO_I32: *(uint32_t*)ptr = (uint32_t)v; break;
+            default: *(uint64_t*)ptr = v; break;
         }
-    } else {
-        if (ctx->mode == CND_MODE_ENCODE) item_to_process = cJSON_GetObjectItem(current, key_name);
+        return CND_ERR_OK;
     }
-
-    // Special handling for Primitive Add (Decode) inside json_io_callback to keep it simple with `val` addition
-    if (ctx->mode == CND_MODE_DECODE) {
-        // Check Hex
-        if (io->in_hex_byte_array && type == OP_IO_U8) {
-            append_hex_byte(io, *(uint8_t*)ptr);
+    
+    switch (type) {
+        case OP_IO_BIT_U: case OP_IO_BIT_I:
+            *(uint64_t*)ptr = 0;
+            return CND_ERR_OK;
+        case OP_IO_F32:
+        case OP_IO_F64: {
+            double d = item ? item->valuedouble : 0;
+            if (item && !cJSON_IsNumber(item)) return fail(io, key_name, "number expected");
+            if (d - d != 0 || (type == OP_IO_F32 && fabs(d) > FLT_MAX)) return fail(io, key_name, "number out of range");
+            if (type == OP_IO_F32) *(float*)ptr = (float)d;
+            else *(double*)ptr = d;
             return CND_ERR_OK;
         }
-        
-        cJSON* val = NULL;
-        #define TO_JSON(expr) val = cJSON_CreateNumber(expr)
-        switch (type) {
-            case OP_IO_U8: TO_JSON(*(uint8_t*)ptr); break;
-            case OP_IO_U16: TO_JSON(*(uint16_t*)ptr); break;
-            case OP_IO_U32: TO_JSON(*(uint32_t*)ptr); break;
-            case OP_IO_U64: TO_JSON((double)*(uint64_t*)ptr); break;
-            case OP_IO_I8: TO_JSON(*(int8_t*)ptr); break;
-            case OP_IO_I16: TO_JSON(*(int16_t*)ptr); break;
-            case OP_IO_I32: TO_JSON(*(int32_t*)ptr); break;
-            case OP_IO_I64: TO_JSON((double)*(int64_t*)ptr); break;
-            case OP_IO_F32: TO_JSON(*(float*)ptr); break;
-            case OP_IO_F64: TO_JSON(*(double*)ptr); break;
-            case OP_IO_BIT_U: TO_JSON((double)*(uint64_t*)ptr); break;
-            case OP_IO_BIT_I: TO_JSON((double)*(int64_t*)ptr); break;
-            case OP_IO_BOOL: case OP_IO_BIT_BOOL: val = cJSON_CreateBool(*(uint8_t*)ptr); break;
-            case OP_STR_NULL: val = cJSON_CreateString((const char*)ptr); break;
-            case OP_STR_PRE_U8: { 
-                uint8_t len = ((uint8_t*)ptr)[-1];
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U16: {
-                uint16_t len = (ctx->endianness==CND_LE) ? (((uint8_t*)ptr)[-2]|((uint8_t*)ptr)[-1]<<8) : (((uint8_t*)ptr)[-2]<<8|((uint8_t*)ptr)[-1]);
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_STR_PRE_U32: {
-                uint8_t* p = (uint8_t*)ptr-4;
-                uint32_t len = p[0] | p[1]<<8 | p[2]<<16 | p[3]<<24;
-                char* s = malloc(len+1); memcpy(s, ptr, len); s[len]=0;
-                val = cJSON_CreateString(s); free(s); break;
-            }
-            case OP_RAW_BYTES: break;
+        case OP_IO_BOOL:
+        case OP_IO_BIT_BOOL:
+            if (item && !cJSON_IsBool(item)) return fail(io, key_name, "true or false expected");
+            *(uint8_t*)ptr = cJSON_IsTrue(item) ? 1 : 0;
+            return CND_ERR_OK;
+        case OP_STR_NULL:
+        case OP_STR_PRE_U8:
+        case OP_STR_PRE_U16:
+        case OP_STR_PRE_U32: {
+            if (item && !cJSON_IsString(item)) return fail(io, key_name, "string expected");
+            const char* s = item ? item->valuestring : "";
+            size_t max = type == OP_STR_NULL ? read_arg_u16(ctx) : type == OP_STR_PRE_U8 ? 0xFF : type == OP_STR_PRE_U16 ? 0xFFFF : 0xFFFFFFFF;
+            if (strlen(s) > max) return fail(io, key_name, "string too long");
+            *(const char**)ptr = s;
+            return CND_ERR_OK;
         }
-        #undef TO_JSON
-        
-        if (val) {
-            if (io->array_depth > 0 && io->depth == io->array_start_depth[io->array_depth - 1]) {
-                cJSON_AddItemToArray(io->array_stack[io->array_depth - 1], val);
-                io->array_index_stack[io->array_depth - 1]++;
-            } else {
-                cJSON_AddItemToObject(current, key_name, val);
+    }
+    return fail(io, key_name, "unsupported type");
+}
+
+static cJSON* new_text(const char* s, size_t len) {
+    char* copy = malloc(len + 1);
+    if (!copy) return NULL;
+    memcpy(copy, s, len);
+    copy[len] = '\0';
+    cJSON* value = cJSON_CreateString(copy);
+    free(copy);
+    return value;
+}
+
+static cnd_error_t decode_value(IOCtx* io, cnd_vm_ctx* ctx, const char* key_name, uint8_t type, const void* ptr) {
+    cJSON* value = NULL;
+    switch (type) {
+        case OP_IO_U8:  value = new_unsigned(*(const uint8_t*)ptr); break;
+        case OP_IO_U16: value = new_unsigned(*(const uint16_t*)ptr); break;
+        case OP_IO_U32: value = new_unsigned(*(const uint32_t*)ptr); break;
+        case OP_IO_BIT_U:
+        case OP_IO_U64: value = new_unsigned(*(const uint64_t*)ptr); break;
+        case OP_IO_I8:  value = new_signed(*(const int8_t*)ptr); break;
+        case OP_IO_I16: value = new_signed(*(const int16_t*)ptr); break;
+        case OP_IO_I32: value = new_signed(*(const int32_t*)ptr); break;
+        case OP_IO_BIT_I:
+        case OP_IO_I64: value = new_signed(*(const int64_t*)ptr); break;
+        case OP_IO_F32: value = new_double(*(const float*)ptr); break;
+        case OP_IO_F64: value = new_double(*(const double*)ptr); break;
+        case OP_IO_BOOL: case OP_IO_BIT_BOOL: value = cJSON_CreateBool(*(const uint8_t*)ptr); break;
+        case OP_STR_NULL:
+        case OP_STR_PRE_U8:
+        case OP_STR_PRE_U16:
+        case OP_STR_PRE_U32: {
+            // The length is stored in front of the text, in the current byte order
+            size_t size = type == OP_STR_PRE_U8 ? 1 : type == OP_STR_PRE_U16 ? 2 : 4;
+            size_t len = 0;
+            if (type == OP_STR_NULL) len = strlen((const char*)ptr);
+            else for (size_t i = 0; i < size; i++) {
+                uint8_t b = ((const uint8_t*)ptr)[(ptrdiff_t)i - (ptrdiff_t)size];
+                len |= (size_t)b << (8 * (ctx->endianness == CND_LE ? i : size - 1 - i));
             }
+            if (text_length((const char*)ptr, len) < 0) return fail(io, key_name, "not a UTF-8 text");
+            value = new_text((const char*)ptr, len);
+            break;
         }
-    } else {
-        // ENCODE Primitive
-        handle_primitive(io, ctx, type, ptr, item_to_process);
+        default:
+            return fail(io, key_name, "unsupported type");
     }
+    return add_output(io, key_name, value);
+}
 
+static cnd_error_t query_value(IOCtx* io, uint16_t key_id, const char* key_name, uint64_t* out) {
+    const cJSON* item = find_value(io, key_name);
+    if (!item) return fail(io, key_name, "value needed but not given");
+    
+    // Values that were decoded are kept as text
+    cJSON number = {0};
+    if (cJSON_IsRaw(item)) {
+        number.type = cJSON_Number;
+        number.valuestring = item->valuestring;
+        number.valuedouble = item->valuedouble;
+        item = &number;
+    }
+    if (cJSON_IsBool(item)) {
+        *out = cJSON_IsTrue(item) ? 1 : 0;
+    } else if (io->float_keys[key_id >> 3] & (1 << (key_id & 7))) {
+        if (!cJSON_IsNumber(item)) return fail(io, key_name, "number expected");
+        memcpy(out, &item->valuedouble, sizeof(*out));
+    } else if (!get_integer(item, 64, false, out) && !get_integer(item, 64, true, out)) {
+        return fail(io, key_name, "integer expected");
+    }
     return CND_ERR_OK;
 }
+
+// A field computed by the VM: shown in the output, and available to what refers to it
+static cnd_error_t store_value(IOCtx* io, cnd_vm_ctx* ctx, uint16_t key_id, const char* key_name, uint64_t v) {
+    // The instruction that writes the field follows: it tells the type
+    const uint8_t* code = ctx->program->bytecode + ctx->ip;
+    uint8_t type = ctx->ip + 1 < ctx->program->bytecode_len && code[0] == OP_EMIT ? code[1] : OP_IO_U64;
+    
+    IOFrame* frame = top_frame(io);
+    if (frame->is_array) return fail(io, key_name, "computed array element");
+    
+    // The value as it is stored in the message
+    cJSON* value;
+    double d;
+    memcpy(&d, &v, sizeof(d));
+    note_type(io, key_id, type);
+    switch (type) {
+        case OP_IO_F32: value = new_double((float)d); break;
+        case OP_IO_F64: value = new_double(d); break;
+        case OP_IO_I8:  value = new_signed((int8_t)v); break;
+        case OP_IO_I16: value = new_signed((int16_t)v); break;
+        case OP_IO_I32: value = new_signed((int32_t)v); break;
+        case OP_IO_I64: value = new_signed((int64_t)v); break;
+        case OP_IO_U8:  value = new_unsigned((uint8_t)v); break;
+        case OP_IO_U16: value = new_unsigned((uint16_t)v); break;
+        case OP_IO_U32: value = new_unsigned((uint32_t)v); break;
+        case OP_IO_BOOL: value = cJSON_CreateBool(v != 0); break;
+        default: value = new_unsigned(v); break;
+    }
+    if (!value) return fail(io, key_name, "out of memory");
+    
+    const char* name = get_json_key(key_name);
+    bool done = get_member(frame->node, name) ? cJSON_ReplaceItemInObjectCaseSensitive(frame->node, name, value) : cJSON_AddItemToObject(frame->node, name, value);
+    if (!done) {
+        cJSON_Delete(value);
+        return fail(io, key_name, "out of memory");
+    }
+    return CND_ERR_OK;
+}
+
+// =================================================================================================
+// JSON IO Callback
+// =================================================================================================
+
+cnd_error_t json_io_callback(cnd_vm_ctx* ctx, uint16_t key_id, uint8_t type, void* ptr) {
+    IOCtx* io = (IOCtx*)ctx->user_ptr;
+    
+    // Get Key Name (full path). For JSON lookups, only the last component (after the last dot) is used
+    const char* key_name = key_id < io->il->str_count ? io->il->string_table[key_id] : "";
+    
+    switch (type) {
+        case OP_EXIT_STRUCT:
+            if (io->frame_count < 2 || top_frame(io)->is_array) return fail(io, "", "unbalanced struct");
+            io->frame_count--;
+            return CND_ERR_OK;
+        
+        case OP_ARR_END:
+            return end_array(io, ctx);
+        
+        case OP_CTX_QUERY:
+        case OP_LOAD_CTX:
+            return query_value(io, key_id, key_name, (uint64_t*)ptr);
+        
+        case OP_RAW_BYTES:
+            return CND_ERR_CALLBACK; // Bytes are handled one by one
+    }
+    
+    cnd_error_t err = begin_implicit_array(io, ctx, key_name, type);
+    if (err != CND_ERR_OK) return err;
+    
+    switch (type) {
+        case OP_ENTER_STRUCT:
+            return enter_struct(io, ctx, key_name);
+        
+        case OP_ARR_FIXED:
+        case OP_ARR_PRE_U8:
+        case OP_ARR_PRE_U16:
+        case OP_ARR_PRE_U32:
+        case OP_ARR_DYNAMIC:
+            return start_array(io, ctx, key_name, type, ptr);
+        
+        case OP_STORE_CTX:
+            return store_value(io, ctx, key_id, key_name, *(uint64_t*)ptr);
+    }
+    
+    note_type(io, key_id, type);
+    if (ctx->mode == CND_MODE_ENCODE) {
+        cJSON* item = NULL;
+        err = next_input(io, ctx, key_name, &item);
+        if (err != CND_ERR_OK) return err;
+        return encode_value(io, ctx, key_name, type, ptr, item);
+    }
+    return decode_value(io, ctx, key_name, type, ptr);
+}
-- 
2.43.0


From 30b3ff91ec5064d42dcef8b0e0b1dabbdfaa2e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:37 +0000
Subject: [PATCH 27/36] fix: inspect walks instructions and jump tables like
 the machine does and stays inside the file

---
 src/cli/cmd_inspect.c | 295 ++++++++++++++++++++++++++----------------
 1 file changed, 184 insertions(+), 111 deletions(-)

diff --git a/src/cli/cmd_inspect.c b/src/cli/cmd_inspect.c
index 94a123a..91c4402 100644
--- a/src/cli/cmd_inspect.c
+++ b/src/cli/cmd_inspect.c
@@ -4,29 +4,31 @@
 #include <stdint.h>
 #include <inttypes.h>
 #include "concordia.h"
+#include "cli_helpers.h"
+#include "../vm/vm_internal.h"
 
 // Helper to read bytes from memory safely
-static uint8_t read_u8(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr >= end) return 0;
+static uint8_t next_u8(const uint8_t** ptr, const uint8_t* end) {
+    if (end - *ptr < 1) return 0;
     return *(*ptr)++;
 }
 
-static uint16_t read_u16(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr + 2 > end) return 0;
+static uint16_t next_u16(const uint8_t** ptr, const uint8_t* end) {
+    if (end - *ptr < 2) return 0;
     uint16_t v = (*ptr)[0] | ((*ptr)[1] << 8);
     *ptr += 2;
     return v;
 }
 
-static uint32_t read_u32(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr + 4 > end) return 0;
-    uint32_t v = (*ptr)[0] | ((*ptr)[1] << 8) | ((*ptr)[2] << 16) | ((*ptr)[3] << 24);
+static uint32_t next_u32(const uint8_t** ptr, const uint8_t* end) {
+    if (end - *ptr < 4) return 0;
+    uint32_t v = (*ptr)[0] | ((*ptr)[1] << 8) | ((*ptr)[2] << 16) | ((uint32_t)(*ptr)[3] << 24);
     *ptr += 4;
     return v;
 }
 
-static uint64_t read_u64(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr + 8 > end) return 0;
+static uint64_t next_u64(const uint8_t** ptr, const uint8_t* end) {
+    if (end - *ptr < 8) return 0;
     uint64_t v = (uint64_t)(*ptr)[0] | ((uint64_t)(*ptr)[1] << 8) | ((uint64_t)(*ptr)[2] << 16) | ((uint64_t)(*ptr)[3] << 24) |
                  ((uint64_t)(*ptr)[4] << 32) | ((uint64_t)(*ptr)[5] << 40) | ((uint64_t)(*ptr)[6] << 48) | ((uint64_t)(*ptr)[7] << 56);
     *ptr += 8;
@@ -41,6 +43,7 @@ static const char* get_opcode_name(uint8_t op) {
         case OP_ENTER_STRUCT: return "ENTER_STRUCT";
         case OP_EXIT_STRUCT: return "EXIT_STRUCT";
         case OP_META_VERSION: return "META_VERSION";
+        case OP_CTX_QUERY: return "CTX_QUERY";
         case OP_META_NAME: return "META_NAME";
         case OP_IO_U8: return "IO_U8";
         case OP_IO_U16: return "IO_U16";
@@ -88,6 +91,7 @@ static const char* get_opcode_name(uint8_t op) {
         case OP_ENUM_CHECK: return "ENUM_CHECK";
         case OP_JUMP_IF_NOT: return "JUMP_IF_NOT";
         case OP_SWITCH: return "SWITCH";
+        case OP_SWITCH_TABLE: return "SWITCH_TABLE";
         case OP_JUMP: return "JUMP";
         case OP_LOAD_CTX: return "LOAD_CTX";
         case OP_STORE_CTX: return "STORE_CTX";
@@ -141,6 +145,54 @@ static const char* get_opcode_name(uint8_t op) {
     }
 }
 
+// Prints a value of the given field type
+static void print_value(uint8_t type, const uint8_t** ptr, const uint8_t* end) {
+    switch (type) {
+        case OP_IO_U8:  case OP_IO_BOOL: printf("%u", next_u8(ptr, end)); break;
+        case OP_IO_U16: printf("%u", next_u16(ptr, end)); break;
+        case OP_IO_U32: printf("%" PRIu32, next_u32(ptr, end)); break;
+        case OP_IO_U64: printf("%" PRIu64, next_u64(ptr, end)); break;
+        case OP_IO_I8:  printf("%d", (int8_t)next_u8(ptr, end)); break;
+        case OP_IO_I16: printf("%d", (int16_t)next_u16(ptr, end)); break;
+        case OP_IO_I32: printf("%" PRId32, (int32_t)next_u32(ptr, end)); break;
+        case OP_IO_I64: printf("%" PRId64, (int64_t)next_u64(ptr, end)); break;
+        case OP_IO_F32: {
+            uint32_t bits = next_u32(ptr, end);
+            float val;
+            memcpy(&val, &bits, 4);
+            printf("%g", val);
+            break;
+        }
+        case OP_IO_F64: {
+            uint64_t bits = next_u64(ptr, end);
+            double val;
+            memcpy(&val, &bits, 8);
+            printf("%g", val);
+            break;
+        }
+    }
+}
+
+// Prints the entries of the jump table that belongs to a switch instruction. Offsets are
+// relative to the end of that instruction.
+static void print_table(uint8_t op, size_t offset, const uint8_t* ptr, const uint8_t* end) {
+    printf("%04zX: (jump table)   ", offset);
+    if (op == OP_SWITCH) {
+        uint16_t count = next_u16(&ptr, end);
+        printf(" Count=%d Default=%" PRId32 " Cases=[", count, (int32_t)next_u32(&ptr, end));
+        for (int i = 0; i < count; i++) {
+            uint64_t value = next_u64(&ptr, end);
+            printf("%s%" PRIu64 ": %" PRId32, i > 0 ? ", " : "", value, (int32_t)next_u32(&ptr, end));
+        }
+    } else {
+        uint64_t min = next_u64(&ptr, end);
+        uint64_t max = next_u64(&ptr, end);
+        printf(" Min=%" PRIu64 " Max=%" PRIu64 " Default=%" PRId32 " Offsets=[", min, max, (int32_t)next_u32(&ptr, end));
+        for (int i = 0; ptr < end; i++) printf("%s%" PRId32, i > 0 ? ", " : "", (int32_t)next_u32(&ptr, end));
+    }
+    printf("]\n");
+}
+
 int cmd_inspect(int argc, char** argv) {
     if (argc < 3) {
         printf("Usage: cnd inspect <file.il>\n");
@@ -148,20 +200,14 @@ int cmd_inspect(int argc, char** argv) {
     }
 
     const char* path = argv[2];
-    FILE* f = fopen(path, "rb");
-    if (!f) {
+    size_t size;
+    uint8_t* data = read_file_bytes(path, &size);
+    if (!data) {
         printf("Error opening file: %s\n", path);
         return 1;
     }
 
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    uint8_t* data = (uint8_t*)malloc(size);
-    fread(data, 1, size, f);
-    fclose(f);
-
-    printf("Inspecting: %s (%ld bytes)\n", path, size);
+    printf("Inspecting: %s (%zu bytes)\n", path, size);
 
     // Parse Header
     if (size < 16 || memcmp(data, "CNDIL", 5) != 0) {
@@ -172,48 +218,80 @@ int cmd_inspect(int argc, char** argv) {
 
     uint8_t version = data[5];
     uint16_t str_count = data[6] | (data[7] << 8);
-    uint32_t str_offset = data[8] | (data[9] << 8) | (data[10] << 16) | (data[11] << 24);
-    uint32_t bc_offset = data[12] | (data[13] << 8) | (data[14] << 16) | (data[15] << 24);
+    uint32_t str_offset = cnd_il_get_u32(data + 8);
+    uint32_t bc_offset = cnd_il_get_u32(data + 12);
 
     printf("\n--- Header ---\n");
     printf("Version: %d\n", version);
     printf("String Count: %d\n", str_count);
-    printf("String Table Offset: %d\n", str_offset);
-    printf("Bytecode Offset: %d\n", bc_offset);
+    printf("String Table Offset: %" PRIu32 "\n", str_offset);
+    printf("Bytecode Offset: %" PRIu32 "\n", bc_offset);
 
     // Print String Table
     printf("\n--- String Table ---\n");
-    if ((long)str_offset < size) {
-        const char* ptr = (const char*)(data + str_offset);
+    if (str_offset < size) {
+        const uint8_t* ptr = data + str_offset;
         for (int i = 0; i < str_count; i++) {
-            printf("[%d] %s\n", i, ptr);
-            while (*ptr) ptr++;
-            ptr++; // Skip null
-            if ((uint8_t*)ptr > data + size) break;
+            const uint8_t* nul = memchr(ptr, 0, (size_t)(data + size - ptr));
+            if (!nul) {
+                printf("Error: String table exceeds the file\n");
+                break;
+            }
+            printf("[%d] %s\n", i, (const char*)ptr);
+            ptr = nul + 1;
         }
     }
 
     // Disassemble Bytecode
     printf("\n--- Bytecode ---\n");
-    if ((long)bc_offset < size) {
-        const uint8_t* ptr = data + bc_offset;
-        const uint8_t* end = data + size;
-        const uint8_t* start = ptr;
+    if (bc_offset < size) {
+        const uint8_t* start = data + bc_offset;
+        size_t len = size - bc_offset;
+        size_t ip = 0;
+        
+        // The switch instruction whose jump table begins at each position (plus one)
+        size_t* tables = calloc(len + 1, sizeof(size_t));
+        if (!tables) {
+            printf("Error: Out of memory\n");
+            free(data);
+            return 1;
+        }
 
-        while (ptr < end) {
-            uint32_t offset = (uint32_t)(ptr - start);
-            uint8_t op = read_u8(&ptr, end);
-            printf("%04X: %-15s", offset, get_opcode_name(op));
+        while (ip < len) {
+            if (tables[ip] > 0) {
+                size_t owner = tables[ip] - 1, at, table_size;
+                if (cnd_il_switch_table(start, len, owner, &at, &table_size) && table_size > 0) {
+                    print_table(start[owner], ip, start + at, start + at + table_size);
+                    ip += table_size;
+                    continue;
+                }
+            }
+            
+            uint8_t op = start[ip];
+            size_t instr_len = 1;
+            printf("%04zX: %-15s", ip, get_opcode_name(op));
+            cnd_instr_status status = cnd_il_instr_len(start, len, ip, &instr_len);
+            if (status == CND_INSTR_UNKNOWN) {
+                printf(" Opcode=0x%02X\n", op);
+                ip++;
+                continue;
+            }
+            if (status == CND_INSTR_TRUNCATED) {
+                printf(" (truncated)\n");
+                break;
+            }
+            const uint8_t* ptr = start + ip + 1;
+            const uint8_t* end = start + ip + instr_len;
 
             switch (op) {
                 case OP_META_VERSION: {
-                    uint8_t v = read_u8(&ptr, end);
+                    uint8_t v = next_u8(&ptr, end);
                     printf(" Ver=%d", v);
                     break;
                 }
                 
                 case OP_META_NAME: {
-                    uint16_t k = read_u16(&ptr, end);
+                    uint16_t k = next_u16(&ptr, end);
                     printf(" KeyID=%d (Name)", k);
                     break;
                 }
@@ -230,7 +308,9 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_IO_F64:
                 case OP_IO_BOOL:
                 case OP_ENTER_STRUCT:
-                    printf(" KeyID=%d", read_u16(&ptr, end));
+                case OP_CTX_QUERY:
+                case OP_ARR_EOF:
+                    printf(" KeyID=%d", next_u16(&ptr, end));
                     break;
 
                 case OP_ENTER_BIT_MODE:
@@ -238,8 +318,8 @@ int cmd_inspect(int argc, char** argv) {
                     break;
 
                 case OP_STR_NULL: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint16_t m = read_u16(&ptr, end);
+                    uint16_t k = next_u16(&ptr, end);
+                    uint16_t m = next_u16(&ptr, end);
                     printf(" KeyID=%d MaxLen=%d", k, m);
                     break;
                 }
@@ -250,7 +330,7 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_ARR_PRE_U8:
                 case OP_ARR_PRE_U16:
                 case OP_ARR_PRE_U32:
-                    printf(" KeyID=%d", read_u16(&ptr, end));
+                    printf(" KeyID=%d", next_u16(&ptr, end));
                     break;
 
                 case OP_ARR_END:
@@ -258,77 +338,65 @@ int cmd_inspect(int argc, char** argv) {
 
                 case OP_IO_BIT_U:
                 case OP_IO_BIT_I: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint8_t b = read_u8(&ptr, end);
+                    uint16_t k = next_u16(&ptr, end);
+                    uint8_t b = next_u8(&ptr, end);
                     printf(" KeyID=%d Bits=%d", k, b);
                     break;
                 }
                 
                 case OP_IO_BIT_BOOL:
-                    printf(" KeyID=%d", read_u16(&ptr, end));
+                    printf(" KeyID=%d", next_u16(&ptr, end));
                     break;
 
                 case OP_ARR_FIXED: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint32_t c = read_u32(&ptr, end);
-                    printf(" KeyID=%d Count=%d", k, c);
+                    uint16_t k = next_u16(&ptr, end);
+                    uint32_t c = next_u32(&ptr, end);
+                    printf(" KeyID=%d Count=%" PRIu32, k, c);
                     break;
                 }
 
                 case OP_ARR_DYNAMIC: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint16_t ref = read_u16(&ptr, end);
+                    uint16_t k = next_u16(&ptr, end);
+                    uint16_t ref = next_u16(&ptr, end);
                     printf(" KeyID=%d RefKeyID=%d", k, ref);
                     break;
                 }
 
                 case OP_RAW_BYTES: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint32_t c = read_u32(&ptr, end);
-                    printf(" KeyID=%d Count=%d", k, c);
+                    uint16_t k = next_u16(&ptr, end);
+                    uint32_t c = next_u32(&ptr, end);
+                    printf(" KeyID=%d Count=%" PRIu32, k, c);
                     break;
                 }
 
                 case OP_CONST_WRITE: {
-                    uint8_t type = read_u8(&ptr, end);
+                    uint8_t type = next_u8(&ptr, end);
                     printf(" Type=%s Val=", get_opcode_name(type));
-                    if (type == OP_IO_U8) printf("%u", read_u8(&ptr, end));
-                    else if (type == OP_IO_U16) printf("%u", read_u16(&ptr, end));
-                    else if (type == OP_IO_U32) printf("%u", read_u32(&ptr, end));
-                    else if (type == OP_IO_U64) printf("%" PRIu64, read_u64(&ptr, end));
+                    print_value(type, &ptr, end);
                     break;
                 }
 
                 case OP_CONST_CHECK: {
-                    uint16_t key = read_u16(&ptr, end);
-                    uint8_t type = read_u8(&ptr, end);
+                    uint16_t key = next_u16(&ptr, end);
+                    uint8_t type = next_u8(&ptr, end);
                     printf(" KeyID=%d Type=%s Val=", key, get_opcode_name(type));
-                    if (type == OP_IO_U8 || type == OP_IO_I8) printf("%u", read_u8(&ptr, end));
-                    else if (type == OP_IO_U16 || type == OP_IO_I16) printf("%u", read_u16(&ptr, end));
-                    else if (type == OP_IO_U32 || type == OP_IO_I32) printf("%u", read_u32(&ptr, end));
-                    else if (type == OP_IO_U64 || type == OP_IO_I64) printf("%" PRIu64, read_u64(&ptr, end));
+                    print_value(type, &ptr, end);
                     break;
                 }
 
                 case OP_RANGE_CHECK: {
-                    uint8_t type = read_u8(&ptr, end);
+                    uint8_t type = next_u8(&ptr, end);
                     printf(" Type=%s Range=[", get_opcode_name(type));
-                    if (type == OP_IO_U8) { printf("%u, %u]", read_u8(&ptr, end), read_u8(&ptr, end)); }
-                    else if (type == OP_IO_I8) { printf("%d, %d]", (int8_t)read_u8(&ptr, end), (int8_t)read_u8(&ptr, end)); }
-                    else if (type == OP_IO_U16) { printf("%u, %u]", read_u16(&ptr, end), read_u16(&ptr, end)); }
-                    else if (type == OP_IO_I16) { printf("%d, %d]", (int16_t)read_u16(&ptr, end), (int16_t)read_u16(&ptr, end)); }
-                    else if (type == OP_IO_U32) { printf("%u, %u]", read_u32(&ptr, end), read_u32(&ptr, end)); }
-                    else if (type == OP_IO_I32) { printf("%d, %d]", (int32_t)read_u32(&ptr, end), (int32_t)read_u32(&ptr, end)); }
-                    else if (type == OP_IO_U64) { printf("%" PRIu64 ", %" PRIu64 "]", read_u64(&ptr, end), read_u64(&ptr, end)); }
-                    else if (type == OP_IO_I64) { printf("%" PRId64 ", %" PRId64 "]", (int64_t)read_u64(&ptr, end), (int64_t)read_u64(&ptr, end)); }
-                    else if (type == OP_IO_F32) { printf("F32 Range"); ptr += 8; }
-                    else if (type == OP_IO_F64) { printf("F64 Range"); ptr += 16; }
+                    print_value(type, &ptr, end);
+                    printf(", ");
+                    print_value(type, &ptr, end);
+                    printf("]");
                     break;
                 }
 
                 case OP_SCALE_LIN: {
-                    uint64_t fac = read_u64(&ptr, end);
-                    uint64_t off = read_u64(&ptr, end);
+                    uint64_t fac = next_u64(&ptr, end);
+                    uint64_t off = next_u64(&ptr, end);
                     double fac_val, o;
                     memcpy(&fac_val, &fac, 8);
                     memcpy(&o, &off, 8);
@@ -340,14 +408,14 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_TRANS_SUB:
                 case OP_TRANS_MUL:
                 case OP_TRANS_DIV:
-                    printf(" Val=%" PRId64, (int64_t)read_u64(&ptr, end));
+                    printf(" Val=%" PRId64, (int64_t)next_u64(&ptr, end));
                     break;
 
                 case OP_TRANS_POLY: {
-                    uint8_t count = read_u8(&ptr, end);
+                    uint8_t count = next_u8(&ptr, end);
                     printf(" Count=%d Coeffs=[", count);
                     for (int i = 0; i < count; i++) {
-                        uint64_t tmp = read_u64(&ptr, end);
+                        uint64_t tmp = next_u64(&ptr, end);
                         double val;
                         memcpy(&val, &tmp, 8);
                         printf("%f%s", val, i == count - 1 ? "" : ", ");
@@ -357,11 +425,11 @@ int cmd_inspect(int argc, char** argv) {
                 }
 
                 case OP_TRANS_SPLINE: {
-                    uint8_t count = read_u8(&ptr, end);
+                    uint8_t count = next_u8(&ptr, end);
                     printf(" Count=%d Points=[", count);
                     for (int i = 0; i < count; i++) {
-                        uint64_t tmp_x = read_u64(&ptr, end);
-                        uint64_t tmp_y = read_u64(&ptr, end);
+                        uint64_t tmp_x = next_u64(&ptr, end);
+                        uint64_t tmp_y = next_u64(&ptr, end);
                         double x, y;
                         memcpy(&x, &tmp_x, 8);
                         memcpy(&y, &tmp_y, 8);
@@ -371,85 +439,90 @@ int cmd_inspect(int argc, char** argv) {
                     break;
                 }
 
-                case OP_CRC_16:
-                    printf(" Poly=0x%04X Init=0x%04X Xor=0x%04X Flags=%d", 
-                        read_u16(&ptr, end), read_u16(&ptr, end), read_u16(&ptr, end), read_u8(&ptr, end));
+                case OP_CRC_16: {
+                    uint16_t poly = next_u16(&ptr, end);
+                    uint16_t init = next_u16(&ptr, end);
+                    uint16_t xor_out = next_u16(&ptr, end);
+                    printf(" Poly=0x%04X Init=0x%04X Xor=0x%04X Flags=%d", poly, init, xor_out, next_u8(&ptr, end));
                     break;
+                }
 
-                case OP_CRC_32:
-                    printf(" Poly=0x%08X Init=0x%08X Xor=0x%08X Flags=%d", 
-                        read_u32(&ptr, end), read_u32(&ptr, end), read_u32(&ptr, end), read_u8(&ptr, end));
+                case OP_CRC_32: {
+                    uint32_t poly = next_u32(&ptr, end);
+                    uint32_t init = next_u32(&ptr, end);
+                    uint32_t xor_out = next_u32(&ptr, end);
+                    printf(" Poly=0x%08" PRIX32 " Init=0x%08" PRIX32 " Xor=0x%08" PRIX32 " Flags=%d", poly, init, xor_out, next_u8(&ptr, end));
                     break;
+                }
 
                 case OP_ENUM_CHECK: {
-                    uint8_t type = read_u8(&ptr, end);
-                    uint16_t count = read_u16(&ptr, end);
+                    uint8_t type = next_u8(&ptr, end);
+                    uint16_t count = next_u16(&ptr, end);
                     printf(" Type=%s Count=%d Values=[", get_opcode_name(type), count);
                     for(int i=0; i<count; i++) {
                         if (i > 0) printf(", ");
-                        if (type == OP_IO_U8) printf("%u", read_u8(&ptr, end));
-                        else if (type == OP_IO_U16) printf("%u", read_u16(&ptr, end));
-                        else if (type == OP_IO_U32) printf("%u", read_u32(&ptr, end));
-                        else if (type == OP_IO_U64) printf("%" PRIu64, read_u64(&ptr, end));
-                        else if (type == OP_IO_I8) printf("%d", (int8_t)read_u8(&ptr, end));
-                        else if (type == OP_IO_I16) printf("%d", (int16_t)read_u16(&ptr, end));
-                        else if (type == OP_IO_I32) printf("%d", (int32_t)read_u32(&ptr, end));
-                        else if (type == OP_IO_I64) printf("%" PRId64, (int64_t)read_u64(&ptr, end));
+                        print_value(type, &ptr, end);
                     }
                     printf("]");
                     break;
                 }
 
-                case OP_SWITCH: {
-                    uint16_t k = read_u16(&ptr, end);
-                    uint32_t t = read_u32(&ptr, end);
-                    printf(" KeyID=%d TableOff=%u", k, t);
+                case OP_SWITCH:
+                case OP_SWITCH_TABLE: {
+                    uint16_t k = next_u16(&ptr, end);
+                    uint32_t t = next_u32(&ptr, end);
+                    printf(" KeyID=%d TableOff=%" PRIu32, k, t);
+                    
+                    size_t at, table_size;
+                    if (cnd_il_switch_table(start, len, ip, &at, &table_size)) tables[at] = ip + 1;
                     break;
                 }
 
                 case OP_JUMP: {
-                    int32_t off = (int32_t)read_u32(&ptr, end);
+                    int32_t off = (int32_t)next_u32(&ptr, end);
                     printf(" Offset=%d", off);
                     break;
                 }
 
                 case OP_JUMP_IF_NOT: {
-                    int32_t off = (int32_t)read_u32(&ptr, end);
+                    int32_t off = (int32_t)next_u32(&ptr, end);
                     printf(" Offset=%d", off);
                     break;
                 }
 
                 case OP_LOAD_CTX: {
-                    uint16_t k = read_u16(&ptr, end);
+                    uint16_t k = next_u16(&ptr, end);
                     printf(" KeyID=%d", k);
                     break;
                 }
 
                 case OP_STORE_CTX: {
-                    uint16_t k = read_u16(&ptr, end);
+                    uint16_t k = next_u16(&ptr, end);
                     printf(" KeyID=%d", k);
                     break;
                 }
 
                 case OP_PUSH_IMM: {
-                    uint64_t v = read_u64(&ptr, end);
+                    uint64_t v = next_u64(&ptr, end);
                     printf(" Val=%" PRIu64, v);
                     break;
                 }
 
                 case OP_EMIT: {
-                    uint8_t type = read_u8(&ptr, end);
+                    uint8_t type = next_u8(&ptr, end);
                     printf(" Type=%s", get_opcode_name(type));
                     break;
                 }
 
                 case OP_ALIGN_PAD:
                 case OP_ALIGN_FILL:
-                    printf(" Align=%d", read_u8(&ptr, end));
+                    printf(" Align=%d", next_u8(&ptr, end));
                     break;
             }
             printf("\n");
+            ip += instr_len;
         }
+        free(tables);
     }
 
     free(data);
-- 
2.43.0


From 78c43510eccf878e239486ede9f5382d9bf546a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:08 +0000
Subject: [PATCH 28/36] fix: the language server answers every request, about
 the open text, and survives incomplete messages

---
 src/cli/cmd_lsp.c           | 717 +++++++++++++++++-------------------
 src/compiler/cnd_internal.h |   4 +
 src/compiler/cndc.c         |   9 +-
 3 files changed, 355 insertions(+), 375 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index a9d1454..5c01f53 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -67,32 +67,58 @@ static void send_json(cJSON* json) {
     free(str);
 }
 
-static cJSON* read_json(void) {
+// Reads the body of the next message; NULL at the end of the input
+static char* read_message(size_t* out_len) {
     // Read header: "Content-Length: <N>\r\n\r\n"
-    size_t content_len = 0;
     while (1) {
-        char line[1024];
-        // fgets reads until newline. In binary mode, \r\n is preserved.
-        if (!fgets(line, sizeof(line), stdin)) return NULL;
+        size_t content_len = 0;
+        int valid = 0;
+        int line_start = 1; // Parts of overlong lines are not headers
+        while (1) {
+            char line[1024];
+            // fgets reads until newline. In binary mode, \r\n is preserved.
+            if (!fgets(line, sizeof(line), stdin)) return NULL;
+            
+            int is_start = line_start;
+            line_start = strchr(line, '\n') != NULL;
+            if (!is_start) continue;
+            
+            if (strncmp(line, "Content-Length:", 15) == 0) {
+                const char* digits = line + 15;
+                while (*digits == ' ') digits++;
+                valid = isdigit((unsigned char)*digits);
+                content_len = valid ? (size_t)strtoull(digits, NULL, 10) : 0;
+            } else if (strcmp(line, "\r\n") == 0 || strcmp(line, "\n") == 0) { 
+                // Handle both \r\n and \n just in case, though spec says \r\n
+                break; // End of headers
+            }
+        }
+        if (!valid) continue;
         
-        if (strncmp(line, "Content-Length: ", 16) == 0) {
-            content_len = atoi(line + 16);
-        } else if (strcmp(line, "\r\n") == 0 || strcmp(line, "\n") == 0) { 
-            // Handle both \r\n and \n just in case, though spec says \r\n
-            break; // End of headers
+        // The length is not to be trusted, so memory grows with what is really there
+        size_t len = 0, cap = 4096;
+        char* buf = malloc(cap);
+        while (buf && len < content_len) {
+            if (len == cap - 1) {
+                cap *= 2;
+                char* bigger = realloc(buf, cap);
+                if (!bigger) free(buf);
+                buf = bigger;
+                if (!buf) break;
+            }
+            size_t want = content_len - len < cap - 1 - len ? content_len - len : cap - 1 - len;
+            size_t got = fread(buf + len, 1, want, stdin);
+            len += got;
+            if (got < want) break;
+        }
+        if (!buf || len < content_len) {
+            free(buf);
+            return NULL;
         }
+        buf[len] = 0;
+        *out_len = len;
+        return buf;
     }
-    
-    if (content_len == 0) return NULL;
-    
-    char* buf = malloc(content_len + 1);
-    if (!buf) return NULL;
-    size_t read_len = fread(buf, 1, content_len, stdin);
-    buf[read_len] = 0;
-    
-    cJSON* json = cJSON_Parse(buf);
-    free(buf);
-    return json;
 }
 
 static void send_response(cJSON* id, cJSON* result) {
@@ -104,6 +130,44 @@ static void send_response(cJSON* id, cJSON* result) {
     cJSON_Delete(res);
 }
 
+// JSON-RPC error codes
+#define RPC_PARSE_ERROR -32700
+#define RPC_INVALID_REQUEST -32600
+#define RPC_METHOD_NOT_FOUND -32601
+#define RPC_INVALID_PARAMS -32602
+
+static void send_error(cJSON* id, int code, const char* message) {
+    cJSON* res = cJSON_CreateObject();
+    cJSON_AddStringToObject(res, "jsonrpc", "2.0");
+    cJSON_AddItemToObject(res, "id", id ? cJSON_Duplicate(id, 1) : cJSON_CreateNull());
+    cJSON* error = cJSON_CreateObject();
+    cJSON_AddNumberToObject(error, "code", code);
+    cJSON_AddStringToObject(error, "message", message);
+    cJSON_AddItemToObject(res, "error", error);
+    send_json(res);
+    cJSON_Delete(res);
+}
+
+// The string member of an object, or NULL
+static const char* get_string(cJSON* obj, const char* name) {
+    cJSON* item = cJSON_GetObjectItem(obj, name);
+    return cJSON_IsString(item) ? item->valuestring : NULL;
+}
+
+static const char* get_uri(cJSON* params) {
+    return get_string(cJSON_GetObjectItem(params, "textDocument"), "uri");
+}
+
+static int get_position(cJSON* params, int* line, int* character) {
+    cJSON* pos = cJSON_GetObjectItem(params, "position");
+    cJSON* l = cJSON_GetObjectItem(pos, "line");
+    cJSON* c = cJSON_GetObjectItem(pos, "character");
+    if (!cJSON_IsNumber(l) || !cJSON_IsNumber(c) || l->valueint < 0 || c->valueint < 0) return 0;
+    *line = l->valueint;
+    *character = c->valueint;
+    return 1;
+}
+
 // --- Document Store ---
 typedef struct {
     char* uri;
@@ -140,44 +204,20 @@ static char* doc_get(const char* uri) {
     return NULL;
 }
 
-#ifdef __GNUC__
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wunused-function"
-#endif
-
-static void doc_remove(const char* uri) {
-    (void)uri;
-    /*
+static void handle_didClose(cJSON* params) {
+    const char* uri = get_uri(params);
+    if (!uri) return;
     for (size_t i = 0; i < doc_count; i++) {
         if (strcmp(docs[i].uri, uri) == 0) {
             free(docs[i].uri);
             free(docs[i].content);
-            if (i < doc_count - 1) {
-                docs[i] = docs[doc_count - 1];
-            }
+            docs[i] = docs[doc_count - 1];
             doc_count--;
             return;
         }
     }
-    */
-}
-
-static void handle_didClose(cJSON* params) {
-    (void)params; // Unused
-    /*
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    if (uri && uri->valuestring) {
-        doc_remove(uri->valuestring);
-    }
-    */
 }
 
-#ifdef __GNUC__
-#pragma GCC diagnostic pop
-#endif
-
 // --- Analysis Logic ---
 
 static const char* get_type_name(uint8_t type) {
@@ -197,9 +237,41 @@ static const char* get_type_name(uint8_t type) {
     }
 }
 
+// Parses a document the way the compiler does, without output
+static void lsp_parse(Parser* p, const char* source, const char* path) {
+    memset(p, 0, sizeof(Parser));
+    p->json_output = 0; 
+    p->silent = 1; // CRITICAL: Suppress stdout/stderr to avoid breaking LSP
+    
+    buf_init(&p->global_bc);
+    p->target = &p->global_bc;
+    strtab_init(&p->strtab);
+    strtab_init(&p->imports);
+    reg_init(&p->registry);
+    enum_reg_init(&p->enums);
+    
+    lexer_init(&p->lexer, source);
+    p->current_path = path; // For import resolution
+    strtab_add(&p->imports, path, (int)strlen(path)); // Importing itself does nothing
+    
+    advance(p);
+    parse_top_level(p);
+}
+
+static void lsp_parse_free(Parser* p) {
+    buf_free(&p->global_bc);
+    strtab_free(&p->strtab);
+    strtab_free(&p->imports);
+    reg_free(&p->registry);
+    enum_reg_free(&p->enums);
+    for (size_t i = 0; i < (size_t)p->error_count && i < p->error_cap; i++) free(p->errors[i].message);
+    free(p->errors);
+}
+
 // Helper to analyze a source string and find definition for symbol at position
 typedef struct {
     int found;
+    int builtin;
     int def_line;
     char* def_file;
     char* symbol_name;
@@ -214,34 +286,16 @@ typedef struct {
 
 static void analyze_source(const char* source, const char* file_path, int line, int character, AnalysisResult* res) {
     res->found = 0;
+    res->builtin = 0;
     res->def_line = 0;
     res->def_file = NULL;
     res->symbol_name = NULL;
     res->doc_comment = NULL;
     res->type_details = NULL;
 
-    // 1. Setup Parser to build registry
+    // 1. Parse to build the registry
     Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; 
-    p.silent = 1; // CRITICAL: Suppress stdout/stderr to avoid breaking LSP
-    
-    // Initialize buffers
-    Buffer bc;
-    buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc);
-    strtab_init(&p.strtab);
-    strtab_init(&p.imports);
-    reg_init(&p.registry);
-    enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
-    p.current_path = file_path; // For import resolution (might fail for relative imports if not handled) 
-    
-    advance(&p);
-    parse_top_level(&p);
-    
-    // Registry is now populated. 
+    lsp_parse(&p, source, file_path);
     
     // 2. Scan tokens again to find the cursor token
     Lexer scanner;
@@ -274,7 +328,8 @@ static void analyze_source(const char* source, const char* file_path, int line,
             int col_start = (int)(t.start - line_start);
             int col_end = col_start + t.length;
             
-            if (character >= col_start && character <= col_end) {
+            // At the border of two tokens the identifier counts
+            if (character >= col_start && character <= col_end && (character < col_end || t.type == TOK_IDENTIFIER)) {
                 target_token = t;
                 if (prev_token.type == TOK_AT) target_is_decorator = 1;
                 break;
@@ -290,6 +345,7 @@ static void analyze_source(const char* source, const char* file_path, int line,
                  if (strlen(BUILTIN_DECORATORS[i].name) == (size_t)target_token.length &&
                      strncmp(BUILTIN_DECORATORS[i].name, target_token.start, target_token.length) == 0) {
                      res->found = 1;
+                     res->builtin = 1;
                      res->symbol_name = strdup(BUILTIN_DECORATORS[i].name);
                      res->doc_comment = strdup(BUILTIN_DECORATORS[i].doc);
                      res->type_details = strdup(BUILTIN_DECORATORS[i].detail);
@@ -326,34 +382,35 @@ static void analyze_source(const char* source, const char* file_path, int line,
                 }
 
                 // Generate type details
-                Buffer tb; buf_init(&tb);
-                char tmp[256];
-                snprintf(tmp, sizeof(tmp), "Type: `%s`\n\nMembers:\n", get_type_name(edef->underlying_type));
-                buf_append(&tb, (uint8_t*)tmp, strlen(tmp));
+                StringBuilder tb; sb_init(&tb);
+                char tmp[64];
+                sb_append(&tb, "Type: `");
+                sb_append(&tb, get_type_name(edef->underlying_type));
+                sb_append(&tb, "`\n\nMembers:\n");
                 
                 for(size_t i=0; i<edef->count; i++) {
-                    snprintf(tmp, sizeof(tmp), "- `%s` = `%" PRId64 "`\n", edef->values[i].name, edef->values[i].value);
-                    buf_append(&tb, (uint8_t*)tmp, strlen(tmp));
+                    sb_append(&tb, "- `");
+                    sb_append(&tb, edef->values[i].name);
+                    if (edef->underlying_type == OP_IO_U64) snprintf(tmp, sizeof(tmp), "` = `%" PRIu64 "`\n", (uint64_t)edef->values[i].value);
+                    else snprintf(tmp, sizeof(tmp), "` = `%" PRId64 "`\n", edef->values[i].value);
+                    sb_append(&tb, tmp);
                 }
-                buf_push(&tb, 0);
-                res->type_details = strdup((char*)tb.data);
-                buf_free(&tb);
+                res->type_details = sb_build(&tb);
+                sb_free(&tb);
             }
         }
     }
     
     // Cleanup
 cleanup:
-    buf_free(&bc);
-    buf_free(&p.global_bc);
-    strtab_free(&p.strtab);
-    strtab_free(&p.imports);
-    reg_free(&p.registry);
-    enum_reg_free(&p.enums);
-    if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
-        free(p.errors);
-    }
+    lsp_parse_free(&p);
+}
+
+static void analysis_free(AnalysisResult* res) {
+    free(res->def_file);
+    free(res->symbol_name);
+    free(res->doc_comment);
+    free(res->type_details);
 }
 
 // --- Handlers ---
@@ -364,7 +421,7 @@ static void url_decode(const char* src, char* dst) {
     while (*src) {
         if ((*src == '%') &&
             ((a = src[1]) && (b = src[2])) &&
-            (isxdigit(a) && isxdigit(b))) {
+            (isxdigit((unsigned char)a) && isxdigit((unsigned char)b))) {
             if (a >= 'a') a -= 'a'-'A';
             if (a >= 'A') a -= ('A' - 10);
             else a -= '0';
@@ -392,112 +449,91 @@ static char* file_uri_to_path(const char* uri) {
     
     // Handle Windows "/C:/..." -> "C:/..."
     // Also handle lower case drive letter normalization if needed?
-    if (decoded[0] == '/' && isalpha(decoded[1]) && decoded[2] == ':') {
+    if (decoded[0] == '/' && isalpha((unsigned char)decoded[1]) && decoded[2] == ':') {
         char* fixed = strdup(decoded + 1);
         free(decoded);
         return fixed;
     }
     
-    return decoded;
+    // The same path as the compiler uses, so that imports resolve alike
+    char* canonical = cnd_canonicalize_path(decoded);
+    if (!canonical) return decoded;
+    free(decoded);
+    return canonical;
 }
 
-// --- Bytecode Helpers for Completion ---
-static uint8_t read_u8(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr >= end) return 0;
-    return *(*ptr)++;
+static char* path_to_file_uri(const char* path) {
+    StringBuilder sb;
+    sb_init(&sb);
+    // Windows path handling
+    sb_append(&sb, path[0] && path[1] == ':' ? "file:///" : "file://");
+    for (; *path; path++) {
+        unsigned char c = (unsigned char)*path;
+        if (isalnum(c) || strchr("/:-._~", c)) {
+            sb_append_c(&sb, (char)c);
+        } else if (c == '\\') {
+            sb_append_c(&sb, '/'); // Normalize backslashes to slashes for URI
+        } else {
+            char hex[4];
+            snprintf(hex, sizeof(hex), "%%%02X", c);
+            sb_append(&sb, hex);
+        }
+    }
+    char* uri = sb_build(&sb);
+    sb_free(&sb);
+    return uri;
 }
 
-static uint16_t read_u16(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr + 2 > end) return 0;
-    uint16_t v = (*ptr)[0] | ((*ptr)[1] << 8);
-    *ptr += 2;
-    return v;
+// The text of an open document, or else of the file
+static char* doc_source(const char* uri, const char* path) {
+    char* source = doc_get(uri);
+    return source ? source : cnd_read_source(path);
 }
 
-static void skip_instruction(const uint8_t** ptr, const uint8_t* end, uint8_t op) {
-    switch (op) {
-        case OP_META_VERSION: *ptr += 1; break;
-        case OP_META_NAME: *ptr += 2; break;
-        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
-        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
-        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL:
-        case OP_ENTER_STRUCT: *ptr += 2; break;
-        case OP_STR_NULL: *ptr += 4; break;
-        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
-        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: *ptr += 2; break;
-        case OP_IO_BIT_U: case OP_IO_BIT_I: *ptr += 3; break;
-        case OP_IO_BIT_BOOL: *ptr += 2; break;
-        case OP_ARR_FIXED: *ptr += 6; break;
-        case OP_RAW_BYTES: *ptr += 6; break;
-        case OP_CONST_WRITE: {
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8) *ptr += 1;
-            else if (type == OP_IO_U16) *ptr += 2;
-            else if (type == OP_IO_U32) *ptr += 4;
-            else if (type == OP_IO_U64) *ptr += 8;
-            break;
-        }
-        case OP_CONST_CHECK: {
-            *ptr += 2; // key
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8 || type == OP_IO_I8) *ptr += 1;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) *ptr += 2;
-            else if (type == OP_IO_U32 || type == OP_IO_I32) *ptr += 4;
-            else if (type == OP_IO_U64 || type == OP_IO_I64) *ptr += 8;
-            break;
-        }
-        case OP_RANGE_CHECK: {
-            uint8_t type = read_u8(ptr, end);
-            if (type == OP_IO_U8 || type == OP_IO_I8) *ptr += 2;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) *ptr += 4;
-            else if (type == OP_IO_U32 || type == OP_IO_I32 || type == OP_IO_F32) *ptr += 8;
-            else if (type == OP_IO_U64 || type == OP_IO_I64 || type == OP_IO_F64) *ptr += 16;
-            break;
-        }
-        case OP_SCALE_LIN: *ptr += 16; break;
-        case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: *ptr += 8; break;
-        case OP_TRANS_POLY: {
-            uint8_t count = read_u8(ptr, end);
-            *ptr += count * 8;
-            break;
-        }
-        case OP_TRANS_SPLINE: {
-            uint8_t count = read_u8(ptr, end);
-            *ptr += count * 16;
-            break;
-        }
-        case OP_CRC_16: *ptr += 7; break;
-        case OP_CRC_32: *ptr += 13; break;
-        case OP_ENUM_CHECK: {
-            uint8_t type = read_u8(ptr, end);
-            uint16_t count = read_u16(ptr, end);
-            int sz = 0;
-            if (type == OP_IO_U8 || type == OP_IO_I8) sz = 1;
-            else if (type == OP_IO_U16 || type == OP_IO_I16) sz = 2;
-            else if (type == OP_IO_U32 || type == OP_IO_I32) sz = 4;
-            else if (type == OP_IO_U64 || type == OP_IO_I64) sz = 8;
-            *ptr += count * sz;
-            break;
-        }
-        case OP_SWITCH: *ptr += 6; break;
-        case OP_JUMP: case OP_JUMP_IF_NOT: *ptr += 4; break;
-        case OP_LOAD_CTX: case OP_STORE_CTX: *ptr += 2; break;
-        case OP_PUSH_IMM: *ptr += 8; break;
-        case OP_ALIGN_PAD: case OP_ALIGN_FILL: *ptr += 1; break;
-        default: break;
+// --- Bytecode Helpers for Completion ---
+typedef struct {
+    StringTable* strtab;
+    cJSON* items;
+} FieldList;
+
+static void add_field(uint8_t* instr, void* user) {
+    FieldList* list = (FieldList*)user;
+    uint8_t op = instr[0];
+    // Operations that define fields (ENTER_STRUCT names are not leaf fields)
+    int is_field = (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
+                   (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
+                   (op >= OP_STR_NULL && op <= OP_ARR_PRE_U32) ||
+                   op == OP_ARR_DYNAMIC || op == OP_ARR_EOF || op == OP_RAW_BYTES || op == OP_CONST_CHECK ||
+                   op == OP_LOAD_CTX || op == OP_STORE_CTX;
+    if (!is_field) return;
+    
+    size_t key = instr[1] | (instr[2] << 8);
+    if (key >= list->strtab->count) return;
+    const char* name = list->strtab->strings[key];
+    
+    // Only add each field once
+    cJSON* other;
+    cJSON_ArrayForEach(other, list->items) {
+        const char* label = get_string(other, "label");
+        if (label && strcmp(label, name) == 0) return;
     }
+    cJSON* item = cJSON_CreateObject();
+    cJSON_AddStringToObject(item, "label", name);
+    cJSON_AddNumberToObject(item, "kind", 5); // Field
+    cJSON_AddStringToObject(item, "detail", "Field");
+    cJSON_AddItemToArray(list->items, item);
 }
 
 static void handle_completion(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
+    const char* uri = get_uri(params);
+    int line, character;
+    if (!uri || !get_position(params, &line, &character)) {
+        send_error(id, RPC_INVALID_PARAMS, "Expected a document and a position");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
-    char* source = doc_get(uri_item->valuestring);
-    if (!source) source = read_file_text(path);
+    char* path = file_uri_to_path(uri);
+    char* source = doc_source(uri, path);
 
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -507,18 +543,7 @@ static void handle_completion(cJSON* id, cJSON* params) {
     
     // 1. Parse to build registry
     Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; p.silent = 1;
-    
-    Buffer bc; buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc);
-    strtab_init(&p.strtab); strtab_init(&p.imports);
-    reg_init(&p.registry); enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
-    p.current_path = path;
-    advance(&p);
-    parse_top_level(&p);
+    lsp_parse(&p, source, path);
     
     // 2. Scan to find context
     Lexer scanner;
@@ -671,39 +696,8 @@ static void handle_completion(cJSON* id, cJSON* params) {
         if (active_struct) {
             StructDef* sdef = reg_find(&p.registry, active_struct, (int)strlen(active_struct));
             if (sdef && sdef->bytecode.data) {
-                const uint8_t* bc_ptr = sdef->bytecode.data;
-                const uint8_t* end = bc_ptr + sdef->bytecode.size;
-                while (bc_ptr < end) {
-                    uint8_t op = read_u8(&bc_ptr, end);
-                    // Check for IO operations that define fields
-                    if (op == OP_IO_U8 || op == OP_IO_U16 || op == OP_IO_U32 || op == OP_IO_U64 ||
-                        op == OP_IO_I8 || op == OP_IO_I16 || op == OP_IO_I32 || op == OP_IO_I64 ||
-                        op == OP_IO_F32 || op == OP_IO_F64 || op == OP_IO_BOOL ||
-                        op == OP_IO_BIT_U || op == OP_IO_BIT_I || op == OP_IO_BIT_BOOL ||
-                        op == OP_STR_NULL || op == OP_STR_PRE_U8 || op == OP_STR_PRE_U16 || op == OP_STR_PRE_U32 ||
-                        op == OP_ARR_PRE_U8 || op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_FIXED ||
-                        op == OP_ENTER_STRUCT || op == OP_LOAD_CTX || op == OP_STORE_CTX) {
-                        uint16_t key = read_u16(&bc_ptr, end);
-                        if (key < p.strtab.count) {
-                            // Only add each field once (skip struct markers and use leaf fields)
-                            const char* field_name = p.strtab.strings[key];
-                            // Skip ENTER_STRUCT names (they're not leaf fields)
-                            if (op != OP_ENTER_STRUCT) {
-                                cJSON* item = cJSON_CreateObject();
-                                cJSON_AddStringToObject(item, "label", field_name);
-                                cJSON_AddNumberToObject(item, "kind", 5); // Field
-                                cJSON_AddStringToObject(item, "detail", "Field");
-                                cJSON_AddItemToArray(items, item);
-                            }
-                        }
-                        // Skip remaining bytes for ops that have more data after key
-                        if (op == OP_IO_BIT_U || op == OP_IO_BIT_I) bc_ptr += 1; // bits
-                        else if (op == OP_STR_NULL) bc_ptr += 2; // max_len
-                        else if (op == OP_ARR_FIXED) bc_ptr += 4; // count
-                    } else {
-                        skip_instruction(&bc_ptr, end, op);
-                    }
-                }
+                FieldList list = { &p.strtab, items };
+                il_walk(sdef->bytecode.data, sdef->bytecode.size, add_field, &list);
             }
         }
     } else {
@@ -758,22 +752,19 @@ static void handle_completion(cJSON* id, cJSON* params) {
     // Cleanup
     if (active_decorator) free(active_decorator);
     if (active_struct) free(active_struct);
-    buf_free(&bc); buf_free(&p.global_bc);
-    strtab_free(&p.strtab); strtab_free(&p.imports);
-    reg_free(&p.registry); enum_reg_free(&p.enums);
-    if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
-        free(p.errors);
-    }
+    lsp_parse_free(&p);
     free(source); free(path);
 }
 
 static void handle_formatting(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
+    const char* uri = get_uri(params);
+    if (!uri) {
+        send_error(id, RPC_INVALID_PARAMS, "Expected a document");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
-    char* source = read_file_text(path);
+    char* path = file_uri_to_path(uri);
+    char* source = doc_source(uri, path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
         free(path);
@@ -805,11 +796,14 @@ static void handle_formatting(cJSON* id, cJSON* params) {
 }
 
 static void handle_document_symbol(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
+    const char* uri = get_uri(params);
+    if (!uri) {
+        send_error(id, RPC_INVALID_PARAMS, "Expected a document");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
-    char* source = read_file_text(path);
+    char* path = file_uri_to_path(uri);
+    char* source = doc_source(uri, path);
     if (!source) {
         send_response(id, cJSON_CreateNull());
         free(path);
@@ -818,26 +812,19 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     
     // Parse
     Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; p.silent = 1;
-    Buffer bc; buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc); strtab_init(&p.strtab); strtab_init(&p.imports); reg_init(&p.registry); enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
-    p.current_path = path;
-    advance(&p);
-    parse_top_level(&p);
+    lsp_parse(&p, source, path);
     
     cJSON* symbols = cJSON_CreateArray();
     
     // Structs
     for (size_t i = 0; i < p.registry.count; i++) {
+        if (p.registry.defs[i].file && strcmp(p.registry.defs[i].file, path) != 0) continue; // Imported
         cJSON* sym = cJSON_CreateObject();
         cJSON_AddStringToObject(sym, "name", p.registry.defs[i].name);
         cJSON_AddNumberToObject(sym, "kind", 23); // Struct
         
         cJSON* loc = cJSON_CreateObject();
-        cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
+        cJSON_AddStringToObject(loc, "uri", uri);
         cJSON* range = cJSON_CreateObject();
         cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", p.registry.defs[i].line - 1); cJSON_AddNumberToObject(start, "character", 0);
         cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", p.registry.defs[i].line - 1); cJSON_AddNumberToObject(end, "character", 0);
@@ -850,12 +837,13 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     
     // Enums
     for (size_t i = 0; i < p.enums.count; i++) {
+        if (p.enums.defs[i].file && strcmp(p.enums.defs[i].file, path) != 0) continue; // Imported
         cJSON* sym = cJSON_CreateObject();
         cJSON_AddStringToObject(sym, "name", p.enums.defs[i].name);
         cJSON_AddNumberToObject(sym, "kind", 10); // Enum
         
         cJSON* loc = cJSON_CreateObject();
-        cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
+        cJSON_AddStringToObject(loc, "uri", uri);
         cJSON* range = cJSON_CreateObject();
         cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", p.enums.defs[i].line - 1); cJSON_AddNumberToObject(start, "character", 0);
         cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", p.enums.defs[i].line - 1); cJSON_AddNumberToObject(end, "character", 0);
@@ -868,29 +856,16 @@ static void handle_document_symbol(cJSON* id, cJSON* params) {
     
     send_response(id, symbols);
     
-    buf_free(&bc); buf_free(&p.global_bc);
-    strtab_free(&p.strtab); strtab_free(&p.imports);
-    reg_free(&p.registry); enum_reg_free(&p.enums);
-    if (p.errors) {
-        for (int i = 0; i < p.error_count; i++) free(p.errors[i].message);
-        free(p.errors);
-    }
+    lsp_parse_free(&p);
     free(source); free(path);
 }
 
 static void publish_diagnostics(const char* uri, const char* source) {
     // Parse to collect errors
     Parser p;
-    memset(&p, 0, sizeof(Parser));
-    p.json_output = 0; p.silent = 1;
-    Buffer bc; buf_init(&bc); p.target = &bc;
-    buf_init(&p.global_bc); strtab_init(&p.strtab); strtab_init(&p.imports); reg_init(&p.registry); enum_reg_init(&p.enums);
-    
-    lexer_init(&p.lexer, source);
     char* path = file_uri_to_path(uri);
-    p.current_path = path;
-    advance(&p);
-    parse_top_level(&p);
+    lsp_parse(&p, source, path);
+    finish_program(&p);
     
     // Send diagnostics
     cJSON* notification = cJSON_CreateObject();
@@ -919,10 +894,7 @@ static void publish_diagnostics(const char* uri, const char* source) {
         cJSON_AddStringToObject(diag, "source", "concordia");
         
         cJSON_AddItemToArray(diagnostics, diag);
-        
-        free(err->message);
     }
-    if (p.errors) free(p.errors);
     
     cJSON_AddItemToObject(params, "diagnostics", diagnostics);
     cJSON_AddItemToObject(notification, "params", params);
@@ -930,50 +902,41 @@ static void publish_diagnostics(const char* uri, const char* source) {
     send_json(notification);
     cJSON_Delete(notification);
     
-    buf_free(&bc); buf_free(&p.global_bc);
-    strtab_free(&p.strtab); strtab_free(&p.imports);
-    reg_free(&p.registry); enum_reg_free(&p.enums);
-    // p.errors already freed in loop above
+    lsp_parse_free(&p);
     free(path);
 }
 
 static void handle_didOpen(cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    cJSON* text = cJSON_GetObjectItem(doc, "text");
-    if (uri && text && uri->valuestring && text->valuestring) {
-        doc_update(uri->valuestring, text->valuestring);
-        publish_diagnostics(uri->valuestring, text->valuestring);
+    const char* uri = get_uri(params);
+    const char* text = get_string(cJSON_GetObjectItem(params, "textDocument"), "text");
+    if (uri && text) {
+        doc_update(uri, text);
+        publish_diagnostics(uri, text);
     }
 }
 
 static void handle_didChange(cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
+    const char* uri = get_uri(params);
     cJSON* changes = cJSON_GetObjectItem(params, "contentChanges");
-    if (uri && changes && cJSON_GetArraySize(changes) > 0) {
+    if (uri && cJSON_IsArray(changes) && cJSON_GetArraySize(changes) > 0) {
         // Full sync: last change has full text
         cJSON* lastChange = cJSON_GetArrayItem(changes, cJSON_GetArraySize(changes) - 1);
-        cJSON* text = cJSON_GetObjectItem(lastChange, "text");
-        if (text && text->valuestring) {
-            doc_update(uri->valuestring, text->valuestring);
-            publish_diagnostics(uri->valuestring, text->valuestring);
+        const char* text = get_string(lastChange, "text");
+        if (text) {
+            doc_update(uri, text);
+            publish_diagnostics(uri, text);
         }
     }
 }
 
 static void handle_didSave(cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    if (!doc) return;
-    cJSON* uri = cJSON_GetObjectItem(doc, "uri");
-    if (uri && uri->valuestring) {
+    const char* uri = get_uri(params);
+    if (uri) {
         // We need source content. If it's a save, we can read from disk.
-        char* path = file_uri_to_path(uri->valuestring);
-        char* source = read_file_text(path);
+        char* path = file_uri_to_path(uri);
+        char* source = cnd_read_source(path);
         if (source) {
-            publish_diagnostics(uri->valuestring, source);
+            publish_diagnostics(uri, source);
             free(source);
         }
         free(path);
@@ -1001,17 +964,17 @@ static void handle_initialize(cJSON* id) {
 }
 
 static void handle_definition(cJSON* id, cJSON* params) {
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
+    const char* uri = get_uri(params);
+    int line, character;
+    if (!uri || !get_position(params, &line, &character)) {
+        send_error(id, RPC_INVALID_PARAMS, "Expected a document and a position");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
+    char* path = file_uri_to_path(uri);
     
     // Read file content
-    char* source = doc_get(uri_item->valuestring);
-    if (!source) source = read_file_text(path);
+    char* source = doc_source(uri, path);
 
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -1022,29 +985,17 @@ static void handle_definition(cJSON* id, cJSON* params) {
     AnalysisResult res;
     analyze_source(source, path, line, character, &res);
     
-    if (res.found) {
+    // Built-in decorators are not defined in any file
+    if (res.found && !res.builtin) {
         cJSON* loc = cJSON_CreateObject();
         
-        // Use resolved file if available, else fallback to current URI
-        if (res.def_file) {
-            // Convert file path to URI
-            // Hacky: assume absolute path or simple relative?
-            // VS Code expects file:///...
-            // If def_file is "import_a.cnd" (relative), and we opened "import_b.cnd" at "/abs/path/to/import_b.cnd",
-            // the resolve_path in parser made it absolute. So res.def_file should be absolute.
-            char uri[1024];
-            // Windows path handling
-            if (res.def_file[1] == ':') {
-                snprintf(uri, sizeof(uri), "file:///%s", res.def_file);
-            } else {
-                snprintf(uri, sizeof(uri), "file://%s", res.def_file);
-            }
-            // Normalize backslashes to slashes for URI
-            for(int i=0; uri[i]; i++) if(uri[i] == '\\') uri[i] = '/';
-            
-            cJSON_AddStringToObject(loc, "uri", uri);
+        // Imported files have paths of their own
+        if (res.def_file && strcmp(res.def_file, path) != 0) {
+            char* file_uri = path_to_file_uri(res.def_file);
+            cJSON_AddStringToObject(loc, "uri", file_uri);
+            free(file_uri);
         } else {
-            cJSON_AddStringToObject(loc, "uri", uri_item->valuestring);
+            cJSON_AddStringToObject(loc, "uri", uri);
         }
 
         cJSON* range = cJSON_CreateObject();
@@ -1060,28 +1011,26 @@ static void handle_definition(cJSON* id, cJSON* params) {
         cJSON_AddItemToObject(loc, "range", range);
         
         send_response(id, loc);
-        if (res.symbol_name) free(res.symbol_name);
-        if (res.def_file) free(res.def_file);
-        if (res.doc_comment) free(res.doc_comment);
     } else {
         send_response(id, cJSON_CreateNull());
     }
     
+    analysis_free(&res);
     free(source);
     free(path);
 }
 
 static void handle_hover(cJSON* id, cJSON* params) {
     // Similar to definition, but returns markdown
-    cJSON* doc = cJSON_GetObjectItem(params, "textDocument");
-    cJSON* uri_item = cJSON_GetObjectItem(doc, "uri");
-    cJSON* pos = cJSON_GetObjectItem(params, "position");
-    int line = cJSON_GetObjectItem(pos, "line")->valueint;
-    int character = cJSON_GetObjectItem(pos, "character")->valueint;
+    const char* uri = get_uri(params);
+    int line, character;
+    if (!uri || !get_position(params, &line, &character)) {
+        send_error(id, RPC_INVALID_PARAMS, "Expected a document and a position");
+        return;
+    }
     
-    char* path = file_uri_to_path(uri_item->valuestring);
-    char* source = doc_get(uri_item->valuestring);
-    if (!source) source = read_file_text(path);
+    char* path = file_uri_to_path(uri);
+    char* source = doc_source(uri, path);
 
     if (!source) {
         send_response(id, cJSON_CreateNull());
@@ -1097,32 +1046,40 @@ static void handle_hover(cJSON* id, cJSON* params) {
         cJSON* contents = cJSON_CreateObject();
         cJSON_AddStringToObject(contents, "kind", "markdown");
         
-        char msg[4096]; // Increased buffer size
-        const char* file_display = res.def_file ? res.def_file : "current file";
-        
-        int offset = 0;
-        offset += snprintf(msg + offset, sizeof(msg) - offset, "**%s**\n\nDefined in %s on line %d.", res.symbol_name, file_display, res.def_line + 1);
+        char number[32];
+        snprintf(number, sizeof(number), "%d", res.def_line + 1);
+        StringBuilder msg;
+        sb_init(&msg);
+        sb_append(&msg, "**");
+        sb_append(&msg, res.symbol_name);
+        sb_append(&msg, "**\n\nDefined in ");
+        sb_append(&msg, res.def_file ? res.def_file : "current file");
+        sb_append(&msg, " on line ");
+        sb_append(&msg, number);
+        sb_append(&msg, ".");
         
         if (res.doc_comment) {
-            offset += snprintf(msg + offset, sizeof(msg) - offset, "\n\n%s", res.doc_comment);
+            sb_append(&msg, "\n\n");
+            sb_append(&msg, res.doc_comment);
         }
 
         if (res.type_details) {
-            offset += snprintf(msg + offset, sizeof(msg) - offset, "\n\n%s", res.type_details);
+            sb_append(&msg, "\n\n");
+            sb_append(&msg, res.type_details);
         }
         
-        cJSON_AddStringToObject(contents, "value", msg);
+        char* text = sb_build(&msg);
+        cJSON_AddStringToObject(contents, "value", text);
+        free(text);
+        sb_free(&msg);
         
         cJSON_AddItemToObject(h, "contents", contents);
         send_response(id, h);
-        if (res.symbol_name) free(res.symbol_name);
-        if (res.def_file) free(res.def_file);
-        if (res.doc_comment) free(res.doc_comment);
-        if (res.type_details) free(res.type_details);
     } else {
         send_response(id, cJSON_CreateNull());
     }
     
+    analysis_free(&res);
     free(source);
     free(path);
 }
@@ -1136,38 +1093,54 @@ int cmd_lsp(int argc, char** argv) {
 
     // Standard LSP loop
     while (1) {
-        cJSON* req = read_json();
-        if (!req) break;
+        size_t len = 0;
+        char* text = read_message(&len);
+        if (!text) break;
+        cJSON* req = strlen(text) == len ? cJSON_Parse(text) : NULL;
+        free(text);
+        if (!req) {
+            send_error(NULL, RPC_PARSE_ERROR, "Message is not valid JSON");
+            continue;
+        }
         
         cJSON* id = cJSON_GetObjectItem(req, "id");
-        cJSON* method = cJSON_GetObjectItem(req, "method");
+        const char* method = get_string(req, "method");
         cJSON* params = cJSON_GetObjectItem(req, "params");
         
-        if (method && method->valuestring) {
-            if (strcmp(method->valuestring, "initialize") == 0) {
-                handle_initialize(id);
-            } else if (strcmp(method->valuestring, "textDocument/definition") == 0) {
-                handle_definition(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/hover") == 0) {
-                handle_hover(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/completion") == 0) {
-                handle_completion(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/formatting") == 0) {
-                handle_formatting(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/documentSymbol") == 0) {
-                handle_document_symbol(id, params);
-            } else if (strcmp(method->valuestring, "textDocument/didOpen") == 0) {
+        if (!cJSON_IsObject(req)) {
+            send_error(NULL, RPC_INVALID_REQUEST, "Message is not an object");
+        } else if (!method) {
+            // Not a call: an answer to a request of the server, which it never makes
+        } else if (strcmp(method, "exit") == 0) {
+            cJSON_Delete(req);
+            return 0;
+        } else if (!id) {
+            // Notifications are not answered
+            if (strcmp(method, "textDocument/didOpen") == 0) {
                 handle_didOpen(params);
-            } else if (strcmp(method->valuestring, "textDocument/didChange") == 0) {
+            } else if (strcmp(method, "textDocument/didChange") == 0) {
                 handle_didChange(params);
-            } else if (strcmp(method->valuestring, "textDocument/didSave") == 0) {
+            } else if (strcmp(method, "textDocument/didSave") == 0) {
                 handle_didSave(params);
-            } else if (strcmp(method->valuestring, "shutdown") == 0) {
-                send_response(id, cJSON_CreateNull());
-            } else if (strcmp(method->valuestring, "exit") == 0) {
-                cJSON_Delete(req);
-                return 0;
+            } else if (strcmp(method, "textDocument/didClose") == 0) {
+                handle_didClose(params);
             }
+        } else if (strcmp(method, "initialize") == 0) {
+            handle_initialize(id);
+        } else if (strcmp(method, "textDocument/definition") == 0) {
+            handle_definition(id, params);
+        } else if (strcmp(method, "textDocument/hover") == 0) {
+            handle_hover(id, params);
+        } else if (strcmp(method, "textDocument/completion") == 0) {
+            handle_completion(id, params);
+        } else if (strcmp(method, "textDocument/formatting") == 0) {
+            handle_formatting(id, params);
+        } else if (strcmp(method, "textDocument/documentSymbol") == 0) {
+            handle_document_symbol(id, params);
+        } else if (strcmp(method, "shutdown") == 0) {
+            send_response(id, cJSON_CreateNull());
+        } else {
+            send_error(id, RPC_METHOD_NOT_FOUND, "Method is not supported");
         }
         
         cJSON_Delete(req);
diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 54b7db6..f916ba7 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -296,6 +296,10 @@ int match_keyword(Token t, const char* kw);
 
 void parse_top_level(Parser* p);
 
+// Checks the limits of a parsed program and drops the names it does not use. The bytecode of
+// structs refers to the names before that.
+void finish_program(Parser* p);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 5798077..5eb74a0 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -68,6 +68,11 @@ static void optimize_strings(Parser* p) {
     free(map);
 }
 
+void finish_program(Parser* p) {
+    if (!p->had_error && p->strtab.overflow) parser_error(p, "Too many names (max 65535)");
+    if (!p->had_error) optimize_strings(p);
+}
+
 static void print_json_error(const char* head, const char* msg, const char* path) {
     StringBuilder sb;
     sb_init(&sb);
@@ -112,11 +117,9 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     advance(&p);
     parse_top_level(&p);
     
-    if (!p.had_error && p.strtab.overflow) parser_error(&p, "Too many names (max 65535)");
+    finish_program(&p);
     
     int ret = 0;
-
-    if (!p.had_error) optimize_strings(&p);
     
     if (p.had_error) {
         ret = 1;
-- 
2.43.0


From d1db917ea4b05a35da4c808be905a90619c9fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:55 +0000
Subject: [PATCH 29/36] fix: the constant generator reads every enum, skips
 comments and reports headers it cannot read

---
 src/tools/gen_bindings.c | 448 +++++++++++++++++++++++++--------------
 1 file changed, 287 insertions(+), 161 deletions(-)

diff --git a/src/tools/gen_bindings.c b/src/tools/gen_bindings.c
index ab5e2e6..4e7365b 100644
--- a/src/tools/gen_bindings.c
+++ b/src/tools/gen_bindings.c
@@ -4,8 +4,6 @@
 #include <ctype.h>
 #include <stdbool.h>
 
-#define MAX_LINE 1024
-
 // Acronyms to keep uppercase
 const char *KEEP_UPPER[] = {
     "OOB",
@@ -15,182 +13,310 @@ const char *KEEP_UPPER[] = {
     NULL
 };
 
-// Helper to convert SCREAMING_SNAKE_CASE to PascalCase
-void to_pascal_case(const char *input, char *output, const char *strip_prefix, const char *add_prefix) {
-    size_t i = 0, j = 0;
-    
-    if (add_prefix) {
-        strcpy(output, add_prefix);
-        j = strlen(add_prefix);
+static void *checked_realloc(void *ptr, size_t size) {
+    void *p = realloc(ptr, size);
+    if (!p) {
+        fprintf(stderr, "Out of memory\n");
+        exit(1);
     }
+    return p;
+}
 
-    // Skip prefix if it matches
-    if (strip_prefix && strncmp(input, strip_prefix, strlen(strip_prefix)) == 0) {
-        i += strlen(strip_prefix);
-    }
-
-    char buffer[256];
-    int buf_idx = 0;
-
-    for (; input[i]; i++) {
-        if (input[i] == '_') {
-            // Flush buffer
-            buffer[buf_idx] = '\0';
-            if (buf_idx > 0) {
-                // Check if buffer is in KEEP_UPPER
-                bool kept = false;
-                for (int k = 0; KEEP_UPPER[k]; k++) {
-                    if (strcmp(buffer, KEEP_UPPER[k]) == 0) {
-                        strcpy(&output[j], KEEP_UPPER[k]);
-                        j += strlen(KEEP_UPPER[k]);
-                        kept = true;
-                        break;
-                    }
-                }
-                if (!kept) {
-                    // PascalCase the buffer
-                    output[j++] = (char)toupper(buffer[0]);
-                    for (int k = 1; k < buf_idx; k++) {
-                        output[j++] = (char)tolower(buffer[k]);
-                    }
-                }
-            }
-            buf_idx = 0;
-        } else {
-            buffer[buf_idx++] = input[i];
+// Appends one word of a name in PascalCase, or as it is if it is an acronym
+static size_t append_word(char *output, size_t j, const char *word, size_t len) {
+    for (int k = 0; KEEP_UPPER[k]; k++) {
+        if (strlen(KEEP_UPPER[k]) == len && strncmp(word, KEEP_UPPER[k], len) == 0) {
+            memcpy(&output[j], word, len);
+            return j + len;
         }
     }
-    
-    // Flush last part
-    buffer[buf_idx] = '\0';
-    if (buf_idx > 0) {
-        bool kept = false;
-        for (int k = 0; KEEP_UPPER[k]; k++) {
-            if (strcmp(buffer, KEEP_UPPER[k]) == 0) {
-                strcpy(&output[j], KEEP_UPPER[k]);
-                j += strlen(KEEP_UPPER[k]);
-                kept = true;
-                break;
-            }
-        }
-        if (!kept) {
-            output[j++] = (char)toupper(buffer[0]);
-            for (int k = 1; k < buf_idx; k++) {
-                output[j++] = (char)tolower(buffer[k]);
-            }
-        }
+    for (size_t k = 0; k < len; k++) {
+        unsigned char c = (unsigned char)word[k];
+        output[j++] = (char)(k == 0 ? toupper(c) : tolower(c));
+    }
+    return j;
+}
+
+// Helper to convert SCREAMING_SNAKE_CASE to PascalCase. The caller owns the result.
+static char *to_pascal_case(const char *input, const char *strip_prefix, const char *add_prefix) {
+    char *output = checked_realloc(NULL, strlen(input) + strlen(add_prefix) + 1);
+    size_t j = strlen(add_prefix);
+    memcpy(output, add_prefix, j);
+
+    // Skip prefix if it matches
+    if (strncmp(input, strip_prefix, strlen(strip_prefix)) == 0) {
+        input += strlen(strip_prefix);
+    }
+
+    while (*input) {
+        size_t len = strcspn(input, "_");
+        j = append_word(output, j, input, len);
+        input += len;
+        if (*input == '_') input++;
     }
     output[j] = '\0';
+    return output;
 }
 
 typedef struct {
-    char name[256];
-    char value[256];
+    char *source; // Name in the header
+    char *name;   // Name in the generated code
+    char *value;
 } ConstEntry;
 
-static ConstEntry ops[256];
-static int op_count = 0;
+typedef struct {
+    ConstEntry *items;
+    int count;
+} ConstList;
+
+static ConstList op_list, err_list, mode_list, trans_list, other_list;
+static ConstList symbols; // Every constant with its numeric value, to look up references
+
+#define ops op_list.items
+#define op_count op_list.count
+#define errs err_list.items
+#define err_count err_list.count
+#define modes mode_list.items
+#define mode_count mode_list.count
+#define trans trans_list.items
+#define trans_count trans_list.count
+#define others other_list.items
+#define other_count other_list.count
+
+static char *copy_text(const char *text, size_t len) {
+    char *copy = checked_realloc(NULL, len + 1);
+    memcpy(copy, text, len);
+    copy[len] = '\0';
+    return copy;
+}
 
-static ConstEntry errs[256];
-static int err_count = 0;
+static void list_add(ConstList *list, const char *source, char *name, const char *value) {
+    list->items = checked_realloc(list->items, (size_t)(list->count + 1) * sizeof(ConstEntry));
+    ConstEntry *e = &list->items[list->count++];
+    e->source = copy_text(source, strlen(source));
+    e->name = name;
+    e->value = copy_text(value, strlen(value));
+}
 
-static ConstEntry modes[256];
-static int mode_count = 0;
+static bool is_word(char c) {
+    return isalnum((unsigned char)c) || c == '_';
+}
 
-static ConstEntry trans[256];
-static int trans_count = 0;
+// Turns the value of a constant into text for the generated code: an integer literal without
+// suffix, or the value of another constant. Returns NULL if it is anything else.
+static char *parse_value(const char *text, size_t len) {
+    while (len > 0 && isspace((unsigned char)text[0])) { text++; len--; }
+    while (len > 0 && isspace((unsigned char)text[len - 1])) len--;
+    if (len >= 2 && text[0] == '(' && text[len - 1] == ')') return parse_value(text + 1, len - 2);
+    if (len == 0) return NULL;
+
+    char *value = copy_text(text, len);
+    if (isalpha((unsigned char)value[0]) || value[0] == '_') {
+        char *found = NULL;
+        for (int i = 0; i < symbols.count && !found; i++) {
+            if (strcmp(symbols.items[i].source, value) == 0) found = copy_text(symbols.items[i].value, strlen(symbols.items[i].value));
+        }
+        free(value);
+        return found;
+    }
 
-static ConstEntry others[256];
-static int other_count = 0;
+    char *digits = value + (value[0] == '-' || value[0] == '+');
+    char *end;
+    unsigned long long number = isdigit((unsigned char)*digits) ? strtoull(digits, &end, 0) : 0;
+    if (!isdigit((unsigned char)*digits) || end[strspn(end, "uUlL")] != '\0') {
+        free(value);
+        return NULL;
+    }
+    *end = '\0';
+    if (digits[0] == '0' && isdigit((unsigned char)digits[1])) {
+        // Octal literals look different in other languages
+        char decimal[32];
+        snprintf(decimal, sizeof(decimal), "%s%llu", value[0] == '-' ? "-" : "", number);
+        free(value);
+        value = copy_text(decimal, strlen(decimal));
+    }
+    return value;
+}
 
-void process_line(char *line) {
-    char name[256];
-    char value[256];
-    char go_name[256];
+static bool is_generated(const char *name) {
+    return strncmp(name, "OP_", 3) == 0 || strncmp(name, "CND_ERR_", 8) == 0 || strncmp(name, "CND_MODE_", 9) == 0 ||
+           strncmp(name, "CND_TRANS_", 10) == 0 || strncmp(name, "CND_LE", 6) == 0 || strncmp(name, "CND_BE", 6) == 0;
+}
 
-    // Strip comments
-    char *comment = strstr(line, "//");
-    if (comment) {
-        *comment = '\0';
+static void add_constant(const char *name, const char *value) {
+    list_add(&symbols, name, NULL, value);
+
+    if (strncmp(name, "OP_", 3) == 0) {
+        list_add(&op_list, name, to_pascal_case(name, "OP_", "Op"), value);
+    } else if (strncmp(name, "CND_ERR_", 8) == 0) {
+        list_add(&err_list, name, to_pascal_case(name, "CND_ERR_", "Err"), value);
+    } else if (strncmp(name, "CND_MODE_", 9) == 0) {
+        list_add(&mode_list, name, to_pascal_case(name, "CND_MODE_", "Mode"), value);
+    } else if (strncmp(name, "CND_TRANS_", 10) == 0) {
+        list_add(&trans_list, name, to_pascal_case(name, "CND_TRANS_", "Trans"), value);
+    } else if (strncmp(name, "CND_LE", 6) == 0 || strncmp(name, "CND_BE", 6) == 0) {
+        // Special case for Endianness
+        list_add(&other_list, name, to_pascal_case(name, "CND_", ""), value);
     }
+}
+
+static void bad_value(const char *name) {
+    fprintf(stderr, "The value of %s is not an integer\n", name);
+    exit(1);
+}
 
-    // Handle #define OP_...
-    if (sscanf(line, "#define OP_%s %s", name, value) == 2) {
-        char full_name[512];
-        sprintf(full_name, "OP_%s", name);
-        to_pascal_case(full_name, go_name, "OP_", "Op");
-        
-        strcpy(ops[op_count].name, go_name);
-        strcpy(ops[op_count].value, value);
-        op_count++;
-        return;
+// Replaces comments by spaces and joins continued lines
+static void strip_comments(char *text) {
+    char *out = text;
+    char *in = text;
+    while (*in) {
+        if (in[0] == '\\' && (in[1] == '\n' || (in[1] == '\r' && in[2] == '\n'))) {
+            in += in[1] == '\n' ? 2 : 3;
+        } else if (in[0] == '/' && in[1] == '/') {
+            while (*in && *in != '\n') in++;
+        } else if (in[0] == '/' && in[1] == '*') {
+            in += 2;
+            while (*in && !(in[0] == '*' && in[1] == '/')) in++;
+            if (*in) in += 2;
+            *out++ = ' ';
+        } else if (*in == '"' || *in == '\'') {
+            char quote = *in;
+            *out++ = *in++;
+            while (*in && *in != quote && *in != '\n') {
+                if (*in == '\\' && in[1]) *out++ = *in++;
+                *out++ = *in++;
+            }
+            if (*in == quote) *out++ = *in++;
+        } else {
+            *out++ = *in++;
+        }
     }
+    *out = '\0';
+}
 
-    // Handle Enum values
-    char *ptr = line;
-    while (*ptr && isspace(*ptr)) ptr++;
-    
-    if (strncmp(ptr, "CND_", 4) == 0) {
-        char *eq = strchr(ptr, '=');
-        
-        // Determine name end
-        char *name_end = ptr;
-        while (*name_end && (isalnum(*name_end) || *name_end == '_')) name_end++;
-        
-        size_t len = name_end - ptr;
-        strncpy(name, ptr, len);
-        name[len] = '\0';
-
-        // Determine value
-        static int last_val = -1;
-        
-        // Check if we switched enum blocks (heuristic: prefix change)
-        // Actually, C enums reset to 0 if not specified, but usually they are in a block.
-        // We can just rely on the fact that if '=' is present, we parse it.
-        // If not, we increment last_val.
-        
-        if (eq) {
-            char *val_start = eq + 1;
-            while (*val_start && isspace(*val_start)) val_start++;
-            char *val_end = val_start;
-            while (*val_end && (isalnum(*val_end) || *val_end == 'x' || *val_end == '-')) val_end++;
-            
-            char val_str[256];
-            strncpy(val_str, val_start, val_end - val_start);
-            val_str[val_end - val_start] = '\0';
-            
-            // Parse value to int for tracking
-            last_val = (int)strtol(val_str, NULL, 0);
-            strcpy(value, val_str);
+// Handle #define OP_...
+static void process_directive(const char *line, size_t len) {
+    const char *end = line + len;
+    const char *p = line + 1;
+    while (p < end && isspace((unsigned char)*p)) p++;
+    if (end - p < 7 || strncmp(p, "define", 6) != 0 || !isspace((unsigned char)p[6])) return;
+    p += 6;
+    while (p < end && isspace((unsigned char)*p)) p++;
+
+    const char *start = p;
+    while (p < end && is_word(*p)) p++;
+    if (p - start < 4 || strncmp(start, "OP_", 3) != 0) return;
+    if (p < end && *p == '(') return; // Macro with parameters
+    const char *rest = p;
+    while (rest < end && isspace((unsigned char)*rest)) rest++;
+    if (rest == end) return; // No value
+
+    char *name = copy_text(start, (size_t)(p - start));
+    char *value = parse_value(p, (size_t)(end - p));
+    if (!value) bad_value(name);
+    add_constant(name, value);
+    free(name);
+    free(value);
+}
+
+// Handle the enumerators between the braces of an enum. Returns the end of the enum.
+static const char *process_enum(const char *p) {
+    long long next = 0;
+    bool known = true;
+    while (*p && *p != '}') {
+        while (isspace((unsigned char)*p) || *p == ',') p++;
+        const char *start = p;
+        while (is_word(*p)) p++;
+        if (*p == '#') {
+            size_t len = strcspn(p, "\n");
+            process_directive(p, len);
+            p += len;
+            continue;
+        }
+        if (p == start) {
+            if (*p && *p != '}') p++;
+            continue;
+        }
+        char *name = copy_text(start, (size_t)(p - start));
+        while (isspace((unsigned char)*p)) p++;
+
+        const char *value_start = p;
+        while (*p && *p != ',' && *p != '}') p++;
+        char *value = NULL;
+        if (*value_start == '=') {
+            value = parse_value(value_start + 1, (size_t)(p - value_start - 1));
+        } else if (known) {
+            char number[32];
+            snprintf(number, sizeof(number), "%lld", next);
+            value = copy_text(number, strlen(number));
+        }
+        known = value != NULL; // Constants that are not generated may have any value
+        if (!known && is_generated(name)) bad_value(name);
+        if (known) {
+            next = strtoll(value, NULL, 0) + 1;
+            add_constant(name, value);
+        }
+        free(name);
+        free(value);
+    }
+    return p;
+}
+
+static void process_header(char *text) {
+    strip_comments(text);
+    bool line_start = true;
+    const char *p = text;
+    while (*p) {
+        if (line_start && *p == '#') {
+            size_t len = strcspn(p, "\n");
+            process_directive(p, len);
+            p += len;
+        } else if (*p == '"' || *p == '\'') {
+            char quote = *p++;
+            while (*p && *p != quote && *p != '\n') p += *p == '\\' && p[1] ? 2 : 1;
+            if (*p == quote) p++;
+            line_start = false;
+        } else if (is_word(*p)) {
+            const char *start = p;
+            while (is_word(*p)) p++;
+            line_start = false;
+            if (p - start == 4 && strncmp(start, "enum", 4) == 0) {
+                // The definition of an enum, not the use of its name
+                const char *q = p;
+                while (isspace((unsigned char)*q)) q++;
+                while (is_word(*q)) q++;
+                while (isspace((unsigned char)*q)) q++;
+                if (*q == '{') p = process_enum(q + 1);
+            }
         } else {
-            // Implicit increment
-            last_val++;
-            sprintf(value, "%d", last_val);
+            if (*p == '\n') line_start = true;
+            else if (!isspace((unsigned char)*p)) line_start = false;
+            p++;
         }
+    }
+}
 
-        if (strncmp(name, "CND_ERR_", 8) == 0) {
-            to_pascal_case(name, go_name, "CND_ERR_", "Err");
-            strcpy(errs[err_count].name, go_name);
-            strcpy(errs[err_count].value, value);
-            err_count++;
-        } else if (strncmp(name, "CND_MODE_", 9) == 0) {
-            to_pascal_case(name, go_name, "CND_MODE_", "Mode");
-            strcpy(modes[mode_count].name, go_name);
-            strcpy(modes[mode_count].value, value);
-            mode_count++;
-        } else if (strncmp(name, "CND_TRANS_", 10) == 0) {
-            to_pascal_case(name, go_name, "CND_TRANS_", "Trans");
-            strcpy(trans[trans_count].name, go_name);
-            strcpy(trans[trans_count].value, value);
-            trans_count++;
-        } else if (strncmp(name, "CND_LE", 6) == 0 || strncmp(name, "CND_BE", 6) == 0) {
-             // Special case for Endianness
-             to_pascal_case(name, go_name, "CND_", "");
-             strcpy(others[other_count].name, go_name);
-             strcpy(others[other_count].value, value);
-             other_count++;
+static char *read_text(const char *path) {
+    FILE *fp = fopen(path, "rb");
+    if (!fp) return NULL;
+    size_t len = 0, cap = 65536;
+    char *text = checked_realloc(NULL, cap);
+    size_t got;
+    while ((got = fread(text + len, 1, cap - 1 - len, fp)) > 0) {
+        len += got;
+        if (len == cap - 1) {
+            cap *= 2;
+            text = checked_realloc(text, cap);
         }
     }
+    int failed = ferror(fp);
+    fclose(fp);
+    if (failed) {
+        free(text);
+        return NULL;
+    }
+    text[len] = '\0';
+    return text;
 }
 
 void generate_go(void) {
@@ -323,17 +449,13 @@ int main(int argc, char **argv) {
         return 1;
     }
 
-    FILE *fp = fopen(argv[1], "r");
-    if (!fp) {
-        perror("fopen");
+    char *text = read_text(argv[1]);
+    if (!text) {
+        perror(argv[1]);
         return 1;
     }
-
-    char line[MAX_LINE];
-    while (fgets(line, sizeof(line), fp)) {
-        process_line(line);
-    }
-    fclose(fp);
+    process_header(text);
+    free(text);
 
     const char *lang = "go";
     if (argc >= 3) {
@@ -351,5 +473,9 @@ int main(int argc, char **argv) {
         return 1;
     }
 
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        perror("stdout");
+        return 1;
+    }
     return 0;
 }
-- 
2.43.0


From be2a90f1682fdb21e9416dc225e6a91f79aec1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 30/36] fix: the Go package executes over empty buffers and
 rejects images cut inside the header

---
 go/concordia.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/go/concordia.go b/go/concordia.go
index d9eda24..2d416ff 100644
--- a/go/concordia.go
+++ b/go/concordia.go
@@ -132,9 +132,9 @@ func LoadProgram(data []byte) (*Program, error) {
 		return nil, errors.New("failed to allocate C program struct")
 	}
 
-	// Check for IL Header: "CNDIL"
+	// Check for IL Header: "CNDIL" (a truncated image is no bytecode either)
 	isIL := false
-	if len(data) >= 16 && string(data[:5]) == "CNDIL" {
+	if len(data) >= 5 && string(data[:5]) == "CNDIL" {
 		isIL = true
 	}
 
@@ -193,13 +193,10 @@ func (p *Program) GetKeyID(name string) uint16 {
 
 // Execute runs the VM with the given data
 func (p *Program) Execute(data []byte, mode Mode, cb CallbackFunc) error {
-	var cData unsafe.Pointer
-	var cDataLen C.size_t
-	if len(data) > 0 {
-		cData = C.CBytes(data)
-		defer C.free(cData)
-		cDataLen = C.size_t(len(data))
-	}
+	// An empty buffer is a buffer as well, the VM takes NULL for none
+	cData := C.CBytes(data)
+	defer C.free(cData)
+	cDataLen := C.size_t(len(data))
 
 	cCtx := (*C.cnd_vm_ctx)(C.calloc(1, C.size_t(unsafe.Sizeof(C.cnd_vm_ctx{}))))
 	if cCtx == nil {
@@ -242,7 +239,7 @@ func (p *Program) Execute(data []byte, mode Mode, cb CallbackFunc) error {
 	ret := C.cnd_execute(cCtx)
 
 	// Copy data back if needed
-	if len(data) > 0 && cData != nil {
+	if len(data) > 0 {
 		copy(data, C.GoBytes(cData, C.int(cDataLen)))
 	}
 
-- 
2.43.0


From fbb6218f76347ac0f195e3439f060363328be64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:32 +0000
Subject: [PATCH 31/36] fix: build helpers pass the output path the way the
 tool expects it

---
 include/nob_concordia.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/nob_concordia.h b/include/nob_concordia.h
index 158df2e..6c9237d 100644
--- a/include/nob_concordia.h
+++ b/include/nob_concordia.h
@@ -99,29 +99,30 @@ const char *cnd_tool_path(const char *deps_dir) {
 // --- Tools ---
 
 // Helper function to compile a Concordia file using the cnd CLI
-// Example: cnd_compile(cnd_tool_path("deps"), "src/main.cnd", "build/main.cnd.o");
+// Example: cnd_compile(cnd_tool_path("deps"), "src/main.cnd", "build/main.il");
 bool cnd_compile(const char *cnd_binary, const char *input_path, const char *output_path) {
     Nob_Cmd cmd = {0};
-    nob_cmd_append(&cmd, cnd_binary, "compile", input_path, "-o", output_path);
+    nob_cmd_append(&cmd, cnd_binary, "compile", input_path, output_path);
     bool result = nob_cmd_run_sync(cmd);
     nob_cmd_free(cmd);
     return result;
 }
 
 // Helper to encode data to Concordia binary format
-// Example: cnd_encode(cnd_tool_path("deps"), "schema.cnd", "data.json", "data.bin");
+// Example: cnd_encode(cnd_tool_path("deps"), "schema.il", "data.json", "data.bin");
 bool cnd_encode(const char *cnd_binary, const char *schema_path, const char *input_json, const char *output_bin) {
     Nob_Cmd cmd = {0};
-    nob_cmd_append(&cmd, cnd_binary, "encode", schema_path, input_json, "-o", output_bin);
+    nob_cmd_append(&cmd, cnd_binary, "encode", schema_path, input_json, output_bin);
     bool result = nob_cmd_run_sync(cmd);
     nob_cmd_free(cmd);
     return result;
 }
 
 // Helper to decode Concordia binary format to JSON
-bool cnd_decode(const char *cnd_binary, const char *schema_path, const char *input_bin) {
+// Example: cnd_decode(cnd_tool_path("deps"), "schema.il", "data.bin", "data.json");
+bool cnd_decode(const char *cnd_binary, const char *schema_path, const char *input_bin, const char *output_json) {
     Nob_Cmd cmd = {0};
-    nob_cmd_append(&cmd, cnd_binary, "decode", schema_path, input_bin);
+    nob_cmd_append(&cmd, cnd_binary, "decode", schema_path, input_bin, output_json);
     bool result = nob_cmd_run_sync(cmd);
     nob_cmd_free(cmd);
     return result;
-- 
2.43.0


From 639ea9182da48123cc0940c7d48fd9272ff21f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:47 +0000
Subject: [PATCH 32/36] fix: language server positions count UTF-16 code units

---
 src/cli/cmd_lsp.c | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 5c01f53..16c34e5 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -168,6 +168,28 @@ static int get_position(cJSON* params, int* line, int* character) {
     return 1;
 }
 
+// Positions in LSP count UTF-16 code units within a line, the source is UTF-8
+static int utf16_units(const char* text, size_t len) {
+    int units = 0;
+    for (size_t i = 0; i < len; i++) {
+        unsigned char c = (unsigned char)text[i];
+        if ((c & 0xC0) == 0x80) continue; // continuation byte
+        units += c >= 0xF0 ? 2 : 1;
+    }
+    return units;
+}
+
+// Byte offset of a position within the line that starts at `line`
+static size_t utf16_offset(const char* line, int character) {
+    size_t i = 0;
+    while (line[i] && line[i] != '\n' && character > 0) {
+        character -= (unsigned char)line[i] >= 0xF0 ? 2 : 1;
+        i++;
+        while (((unsigned char)line[i] & 0xC0) == 0x80) i++;
+    }
+    return i;
+}
+
 // --- Document Store ---
 typedef struct {
     char* uri;
@@ -325,8 +347,8 @@ static void analyze_source(const char* source, const char* file_path, int line,
             // We need to calculate offset from line start.
             const char* line_start = t.start;
             while (line_start > source && *(line_start-1) != '\n') line_start--;
-            int col_start = (int)(t.start - line_start);
-            int col_end = col_start + t.length;
+            int col_start = utf16_units(line_start, (size_t)(t.start - line_start));
+            int col_end = col_start + utf16_units(t.start, (size_t)t.length);
             
             // At the border of two tokens the identifier counts
             if (character >= col_start && character <= col_end && (character < col_end || t.type == TOK_IDENTIFIER)) {
@@ -560,7 +582,7 @@ static void handle_completion(cJSON* id, cJSON* params) {
         if (*ptr == '\n') l++;
         ptr++;
     }
-    cursor_offset = (ptr - source) + character;
+    cursor_offset = (size_t)(ptr - source) + utf16_offset(ptr, character);
     
     int context_is_enum_member = 0;
     char* enum_name = NULL;
@@ -881,11 +903,23 @@ static void publish_diagnostics(const char* uri, const char* source) {
         if (i >= (size_t)p.error_cap || !p.errors) break;
         CompilerError* err = &p.errors[i];
         
+        // The column counts bytes
+        const char* err_line = source;
+        for (int l = 1; l < err->line && err_line; l++) {
+            err_line = strchr(err_line, '\n');
+            if (err_line) err_line++;
+        }
+        int column = err->column - 1;
+        if (err_line && column > 0) {
+            size_t len = strcspn(err_line, "\n");
+            column = utf16_units(err_line, len < (size_t)column ? len : (size_t)column);
+        }
+        
         cJSON* diag = cJSON_CreateObject();
         
         cJSON* range = cJSON_CreateObject();
-        cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", err->line - 1); cJSON_AddNumberToObject(start, "character", err->column - 1);
-        cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", err->line - 1); cJSON_AddNumberToObject(end, "character", err->column); // Just 1 char width or more?
+        cJSON* start = cJSON_CreateObject(); cJSON_AddNumberToObject(start, "line", err->line - 1); cJSON_AddNumberToObject(start, "character", column);
+        cJSON* end = cJSON_CreateObject(); cJSON_AddNumberToObject(end, "line", err->line - 1); cJSON_AddNumberToObject(end, "character", column + 1); // Just 1 char width or more?
         cJSON_AddItemToObject(range, "start", start); cJSON_AddItemToObject(range, "end", end);
         
         cJSON_AddItemToObject(diag, "range", range);
-- 
2.43.0


From d24e6a702c0b874cb999116c8a828c84c540b221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:08 +0000
Subject: [PATCH 33/36] fix: completion trigger characters are a list

---
 src/cli/cmd_lsp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/cmd_lsp.c b/src/cli/cmd_lsp.c
index 16c34e5..933a518 100644
--- a/src/cli/cmd_lsp.c
+++ b/src/cli/cmd_lsp.c
@@ -987,7 +987,8 @@ static void handle_initialize(cJSON* id) {
     
     cJSON* comp = cJSON_CreateObject();
     cJSON_AddBoolToObject(comp, "resolveProvider", 0);
-    cJSON_AddStringToObject(comp, "triggerCharacters", "."); 
+    cJSON* triggers = cJSON_AddArrayToObject(comp, "triggerCharacters");
+    cJSON_AddItemToArray(triggers, cJSON_CreateString("."));
     cJSON_AddItemToObject(cap, "completionProvider", comp);
     
     // Advertise text document sync (1 = Full)
-- 
2.43.0


From 50e8c175402411f84aa3bf85097d87e7e647cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:52 +0000
Subject: [PATCH 34/36] fix: a line break inside a string counts as a line

---
 src/compiler/cnd_lexer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/cnd_lexer.c b/src/compiler/cnd_lexer.c
index 0b15e2f..340f8eb 100644
--- a/src/compiler/cnd_lexer.c
+++ b/src/compiler/cnd_lexer.c
@@ -132,7 +132,10 @@ Token lexer_next(Lexer* lexer) {
             case '"': {
                 token.type = TOK_STRING;
                 token.start = lexer->current;
-                while (*lexer->current != '"' && *lexer->current != '\0') lexer->current++;
+                while (*lexer->current != '"' && *lexer->current != '\0') {
+                    if (*lexer->current == '\n') lexer->line++; // The token is on the line it starts on
+                    lexer->current++;
+                }
                 token.length = (int)(lexer->current - token.start);
                 if (*lexer->current == '"') lexer->current++;
                 return token;
-- 
2.43.0


From fd00e8ebc60397b607f9af10d91bbc3545d0f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:43 +0000
Subject: [PATCH 35/36] fix: a computed float is not matched by NaN in a
 message

---
 src/vm/vm_exec.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index ea72f2e..16b0215 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1624,14 +1624,17 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         
                         float f_bin; memcpy(&f_bin, &bin_val, 4);
                         
+                        // Infinities are equal to themselves, NaN only matches NaN
                         float diff = f_val - f_bin;
-                        if (diff < -0.00001f || diff > 0.00001f) return CND_ERR_VALIDATION;
+                        bool same = f_val == f_bin || (f_val != f_val && f_bin != f_bin);
+                        if (!same && !(diff >= -0.00001f && diff <= 0.00001f)) return CND_ERR_VALIDATION;
                     } else if (type == OP_IO_F64) {
                         double d_val; memcpy(&d_val, &val, 8);
                         double d_bin; memcpy(&d_bin, &bin_val, 8);
                         
                         double diff = d_val - d_bin;
-                        if (diff < -0.0000001 || diff > 0.0000001) return CND_ERR_VALIDATION;
+                        bool same = d_val == d_bin || (d_val != d_val && d_bin != d_bin);
+                        if (!same && !(diff >= -0.0000001 && diff <= 0.0000001)) return CND_ERR_VALIDATION;
                     } else {
                         // The message only carries the low `size` bytes of the value
                         uint64_t expected = (size == 8) ? val : (val & (((uint64_t)1 << (size * 8)) - 1));
-- 
2.43.0


From 3aa8c21364b37795f31668f3582c7ded369fbbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:30 +0000
Subject: [PATCH 36/36] fix: lengths near 4 GiB do not wrap where sizes have 32
 bits

---
 src/vm/vm_exec.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 16b0215..24bf59e 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -368,7 +368,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
     if ((next_op == OP_IO_U8 || next_op == OP_IO_I8) && after_op == OP_ARR_END) {
         uint16_t elem_key = (uint16_t)(ctx->program->bytecode[ctx->ip + 1] | (ctx->program->bytecode[ctx->ip + 2] << 8));
         
-        if (ctx->cursor + count > ctx->data_len) return false; // Let normal loop handle OOB
+        if (count > ctx->data_len - ctx->cursor) return false; // Let normal loop handle OOB
         
         void* ptr = ctx->data_buffer + ctx->cursor;
         
@@ -454,7 +454,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
                 return CND_ERR_OOB; \
             } \
             ctype len_val = (READ_EXPR); \
-            if (ctx->cursor + (size) + len_val > ctx->data_len) return CND_ERR_OOB; \
+            if (len_val > ctx->data_len - ctx->cursor - (size)) return CND_ERR_OOB; \
             const char* ptr = (const char*)(ctx->data_buffer + ctx->cursor + (size)); \
             SYNC_IP(); \
             if (ctx->io_callback(ctx, key, opcode, (void*)ptr) != CND_ERR_OK) return CND_ERR_CALLBACK; \
@@ -1360,7 +1360,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t key = FETCH_IL_U16(ctx);
                 uint32_t count = FETCH_IL_U32(ctx);
                 
-                if (ctx->cursor + count > ctx->data_len) return CND_ERR_OOB;
+                if (count > ctx->data_len - ctx->cursor) return CND_ERR_OOB;
                 
                 // Callback receives/provides pointer to data in buffer
                 // For Encode: Callback writes TO this pointer
@@ -1382,10 +1382,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 // IP is now at the start of the code block (immediately after SWITCH instruction)
                 SYNC_IP();
                 size_t code_start_ip = ctx->ip;
+                if (table_rel_offset > ctx->program->bytecode_len - code_start_ip) return CND_ERR_OOB;
                 size_t table_start_ip = code_start_ip + table_rel_offset;
                 
-                if (table_start_ip > ctx->program->bytecode_len) return CND_ERR_OOB;
-                
                 // Jump to table to read it
                 size_t original_ip = ctx->ip;
                 ctx->ip = table_start_ip;
@@ -1433,11 +1432,11 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 SYNC_IP();
                 size_t code_start_ip = ctx->ip;
-                size_t table_start_ip = code_start_ip + table_rel_offset;
                 
                 // Check if table start is valid and if we can read the header (20 bytes)
-                if (table_start_ip > ctx->program->bytecode_len || 
-                    table_start_ip + 20 > ctx->program->bytecode_len) return CND_ERR_OOB;
+                if (table_rel_offset > ctx->program->bytecode_len - code_start_ip) return CND_ERR_OOB;
+                size_t table_start_ip = code_start_ip + table_rel_offset;
+                if (ctx->program->bytecode_len - table_start_ip < 20) return CND_ERR_OOB;
                 
                 // Jump to table
                 size_t original_ip = ctx->ip;
-- 
2.43.0

