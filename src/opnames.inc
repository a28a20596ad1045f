{0x00, "NOOP"}, {0x01, "SET_ENDIAN_LE"}, {0x02, "SET_ENDIAN_BE"}, {0x03, "ENTER_STRUCT"}, {0x04, "EXIT_STRUCT"}, {0x05, "META_VERSION"}, {0x06, "CTX_QUERY"}, {0x07, "META_NAME"},
{0x10, "IO_U8"}, {0x11, "IO_U16"}, {0x12, "IO_U32"}, {0x13, "IO_U64"}, {0x14, "IO_I8"}, {0x15, "IO_I16"}, {0x16, "IO_I32"}, {0x17, "IO_I64"},
{0x18, "IO_F32"}, {0x19, "IO_F64"}, {0x1A, "IO_BOOL"}, {0x20, "IO_BIT_U"}, {0x21, "IO_BIT_I"}, {0x22, "IO_BIT_BOOL"}, {0x23, "ALIGN_PAD"}, {0x24, "ALIGN_FILL"},
{0x25, "ENTER_BIT_MODE"}, {0x26, "EXIT_BIT_MODE"}, {0x30, "STR_NULL"}, {0x31, "STR_PRE_U8"}, {0x32, "STR_PRE_U16"}, {0x33, "STR_PRE_U32"}, {0x34, "ARR_FIXED"}, {0x35, "ARR_PRE_U8"},
{0x36, "ARR_PRE_U16"}, {0x37, "ARR_PRE_U32"}, {0x38, "ARR_END"}, {0x39, "RAW_BYTES"}, {0x3A, "ARR_EOF"}, {0x3B, "ARR_DYNAMIC"}, {0x40, "CONST_CHECK"}, {0x41, "CONST_WRITE"},
{0x42, "RANGE_CHECK"}, {0x43, "SCALE_LIN"}, {0x44, "CRC_16"}, {0x45, "TRANS_ADD"}, {0x46, "TRANS_SUB"}, {0x47, "TRANS_MUL"}, {0x48, "TRANS_DIV"}, {0x49, "CRC_32"},
{0x4A, "MARK_OPTIONAL"}, {0x4B, "ENUM_CHECK"}, {0x4C, "TRANS_POLY"}, {0x4D, "TRANS_SPLINE"}, {0x50, "JUMP_IF_NOT"}, {0x51, "SWITCH"}, {0x52, "JUMP"}, {0x53, "SWITCH_TABLE"},
{0x60, "LOAD_CTX"}, {0x78, "STORE_CTX"}, {0x61, "PUSH_IMM"}, {0x62, "POP"}, {0x63, "SWAP"}, {0x64, "DUP"}, {0x65, "EMIT"}, {0x72, "ADD"},
{0x73, "SUB"}, {0x74, "MUL"}, {0x75, "DIV"}, {0x76, "MOD"}, {0x77, "NEG"}, {0x80, "FADD"}, {0x81, "FSUB"}, {0x82, "FMUL"},
{0x83, "FDIV"}, {0x84, "FNEG"}, {0x85, "SIN"}, {0x86, "COS"}, {0x87, "TAN"}, {0x88, "SQRT"}, {0x89, "POW"}, {0x8A, "LOG"},
{0x8B, "ABS"}, {0x90, "ITOF"}, {0x91, "FTOI"}, {0x92, "EQ_F"}, {0x93, "NEQ_F"}, {0x94, "GT_F"}, {0x95, "LT_F"}, {0x96, "GTE_F"},
{0x97, "LTE_F"}, {0xA0, "BIT_AND"}, {0xA1, "BIT_OR"}, {0xA2, "BIT_XOR"}, {0xA3, "BIT_NOT"}, {0xA4, "SHL"}, {0xA5, "SHR"}, {0x69, "EQ"},
{0x6A, "NEQ"}, {0x6B, "GT"}, {0x6C, "LT"}, {0x6D, "GTE"}, {0x6E, "LTE"}, {0x6F, "LOG_AND"}, {0x70, "LOG_OR"}, {0x71, "LOG_NOT"},
