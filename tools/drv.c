// Demonstration driver: drv comp SCHEMA | drv enc SCHEMA CAP [-raw] name=value... | drv dec SCHEMA HEX [-raw]
// enc prints "<status> <hex>"; dec prints one "name=value" per event, then "<status> <consumed>".
// Values: integers, floats (with a dot), strings. Several values for one name are used in turn.
#include "concordia.h"
#include "compiler.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int ac; static char** av; static int enc, raw; static int used[256];
static const char* val(const char* name) {
    int last = -1;
    for (int i = 0; i < ac; i++) { size_t n = strlen(name); if (!strncmp(av[i], name, n) && av[i][n] == '=') { last = i; if (!used[i]) { used[i] = 1; return av[i] + n + 1; } } }
    return last >= 0 ? strchr(av[last], '=') + 1 : NULL;
}
static cnd_error_t cb(cnd_vm_ctx* ctx, uint16_t key, uint8_t t, void* p) {
    const char* k = cnd_get_key_name(ctx->program, key);
    if (!k) k = "?";
    if (t == OP_ENTER_STRUCT || t == OP_EXIT_STRUCT) return CND_ERR_OK;
    if (t == OP_RAW_BYTES) return raw ? CND_ERR_OK : CND_ERR_CALLBACK;
    static struct { const void* pr; uint16_t k; uint64_t v; } mem[64]; static int nm;
    if (!enc && (t == OP_CTX_QUERY || t == OP_LOAD_CTX)) {
        for (int i = nm; i-- > 0;) if (mem[i].k == key) { *(uint64_t*)p = mem[i].v; return CND_ERR_OK; }
        return CND_ERR_CALLBACK;
    }
    if (!enc) {
        uint64_t v = 0; int have = 1;
        switch (t) { case OP_IO_U8: case OP_IO_BOOL: case OP_IO_BIT_BOOL: v = *(uint8_t*)p; break; case OP_IO_U16: v = *(uint16_t*)p; break; case OP_IO_U32: v = *(uint32_t*)p; break;
            case OP_IO_U64: case OP_IO_I64: case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_STORE_CTX: v = *(uint64_t*)p; break; case OP_IO_I8: v = (uint64_t)(int64_t)*(int8_t*)p; break;
            case OP_IO_I16: v = (uint64_t)(int64_t)*(int16_t*)p; break; case OP_IO_I32: v = (uint64_t)(int64_t)*(int32_t*)p; break; default: have = 0; }
        if (have && nm < 64) { mem[nm].k = key; mem[nm++].v = v; }
        switch (t) {
        case OP_IO_U8: printf("%s=%u\n", k, *(uint8_t*)p); break; case OP_IO_U16: printf("%s=%u\n", k, *(uint16_t*)p); break;
        case OP_IO_U32: printf("%s=%u\n", k, *(uint32_t*)p); break;
        case OP_IO_U64: case OP_IO_BIT_U: case OP_STORE_CTX: printf("%s=%llu\n", k, (unsigned long long)*(uint64_t*)p); break;
        case OP_IO_I8: printf("%s=%d\n", k, *(int8_t*)p); break; case OP_IO_I16: printf("%s=%d\n", k, *(int16_t*)p); break;
        case OP_IO_I32: printf("%s=%d\n", k, *(int32_t*)p); break;
        case OP_IO_I64: case OP_IO_BIT_I: printf("%s=%lld\n", k, (long long)*(int64_t*)p); break;
        case OP_IO_F32: printf("%s=%.9g\n", k, *(float*)p); break; case OP_IO_F64: printf("%s=%.17g\n", k, *(double*)p); break;
        case OP_IO_BOOL: case OP_IO_BIT_BOOL: printf("%s=%u\n", k, *(uint8_t*)p); break;
        case OP_STR_NULL: printf("%s=\"%s\"\n", k, (const char*)p); break;
        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: {
            const uint8_t* q = p; int w = t == OP_STR_PRE_U8 ? 1 : t == OP_STR_PRE_U16 ? 2 : 4; uint32_t n = 0;
            for (int i = 0; i < w; i++) n |= (uint32_t)(ctx->endianness == CND_LE ? q[-w + i] : q[-1 - i]) << 8 * i;
            printf("%s=\"%.*s\"\n", k, (int)n, (const char*)p); break; }
        case OP_ARR_END: printf("end\n"); break;
        default: printf("%s#%u(%02x)\n", k, *(uint32_t*)p, t);
        }
        return CND_ERR_OK;
    }
    if (t == OP_ARR_END) return CND_ERR_OK;
    const char* v = val(k); if (!v) { fprintf(stderr, "no value for %s (type %02x)\n", k, t); return CND_ERR_CALLBACK; }
    uint64_t u = v[0] == '-' ? (uint64_t)strtoll(v, 0, 0) : strtoull(v, 0, 0);
    switch (t) {
    case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: case OP_IO_BIT_BOOL: *(uint8_t*)p = (uint8_t)u; break;
    case OP_IO_U16: case OP_IO_I16: *(uint16_t*)p = (uint16_t)u; break;
    case OP_IO_U32: case OP_IO_I32: *(uint32_t*)p = (uint32_t)u; break;
    case OP_IO_F32: *(float*)p = strtof(v, 0); break; case OP_IO_F64: *(double*)p = strtod(v, 0); break;
    case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: *(const char**)p = v; break;
    case OP_ARR_FIXED: break;
    case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: case OP_ARR_DYNAMIC: *(uint32_t*)p = (uint32_t)u; break;
    default: *(uint64_t*)p = u;
    }
    return CND_ERR_OK;
}
int main(int argc, char** argv) {
    char out[64] = "/tmp/drvXXXXXX"; int fd = mkstemp(out); if (fd < 0) return 3; close(fd);
    int so = dup(1); freopen("/dev/null", "w", stdout); int rc = cnd_compile_file(argv[2], out, 0, 0); fflush(stdout); dup2(so, 1);
    if (rc) { unlink(out); printf("rejected\n"); return 0; }
    FILE* f = fopen(out, "rb"); static uint8_t il[1 << 20]; size_t n = fread(il, 1, sizeof il, f); fclose(f); unlink(out);
    if (!strcmp(argv[1], "comp")) { printf("accepted\n"); return 0; }
    cnd_program p; if (cnd_program_load_il(&p, il, n)) { printf("not loaded\n"); return 0; }
    cnd_vm_ctx c; static uint8_t buf[1 << 20]; size_t len; int e;
    enc = !strcmp(argv[1], "enc");
    int i = 4; if (i < argc && !strcmp(argv[i], "-raw")) { raw = 1; i++; }
    ac = argc - i; av = argv + i;
    if (enc) len = strtoul(argv[3], 0, 0);
    else { len = strlen(argv[3]) / 2; for (size_t j = 0; j < len; j++) { unsigned x; sscanf(argv[3] + 2 * j, "%2x", &x); buf[j] = (uint8_t)x; } }
    uint8_t* b = malloc(len ? len : 1); memcpy(b, buf, len); // exact size
    cnd_init(&c, enc ? CND_MODE_ENCODE : CND_MODE_DECODE, &p, b, len, cb, NULL);
    e = cnd_execute(&c);
    if (enc) { printf("%d ", e); if (!e) for (size_t j = 0; j < c.cursor; j++) printf("%02x", b[j]); printf("\n"); }
    else printf("%d %zu\n", e, (size_t)c.cursor);
    return 0;
}
