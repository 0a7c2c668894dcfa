"""P31: TPM 2.0 commands, policy digests and response codes are what the specification defines."""

import functools
import hashlib
import itertools
import struct

from lib.mc import Suite


def _table(s):
    return {int(k, 16): v for k, v in (w.split(":") for w in s.split())}


# Tables of the TPM 2.0 library specification, part 2 (all names without TPM_CC_ / TPM_RC_)
COMMANDS = _table('''
    11f:NV_UndefineSpaceSpecial 120:EvictControl 121:HierarchyControl 122:NV_UndefineSpace 124:ChangeEPS 125:ChangePPS 126:Clear
    127:ClearControl 128:ClockSet 129:HierarchyChangeAuth 12a:NV_DefineSpace 12b:PCR_Allocate 12c:PCR_SetAuthPolicy
    12d:PP_Commands 12e:SetPrimaryPolicy 12f:FieldUpgradeStart 130:ClockRateAdjust 131:CreatePrimary 132:NV_GlobalWriteLock
    133:GetCommandAuditDigest 134:NV_Increment 135:NV_SetBits 136:NV_Extend 137:NV_Write 138:NV_WriteLock
    139:DictionaryAttackLockReset 13a:DictionaryAttackParameters 13b:NV_ChangeAuth 13c:PCR_Event 13d:PCR_Reset
    13e:SequenceComplete 13f:SetAlgorithmSet 140:SetCommandCodeAuditStatus 141:FieldUpgradeData 142:IncrementalSelfTest
    143:SelfTest 144:Startup 145:Shutdown 146:StirRandom 147:ActivateCredential 148:Certify 149:PolicyNV 14a:CertifyCreation
    14b:Duplicate 14c:GetTime 14d:GetSessionAuditDigest 14e:NV_Read 14f:NV_ReadLock 150:ObjectChangeAuth 151:PolicySecret
    152:Rewrap 153:Create 154:ECDH_ZGen 155:HMAC 156:Import 157:Load 158:Quote 159:RSA_Decrypt 15b:HMAC_Start 15c:SequenceUpdate
    15d:Sign 15e:Unseal 160:PolicySigned 161:ContextLoad 162:ContextSave 163:ECDH_KeyGen 164:EncryptDecrypt 165:FlushContext
    167:LoadExternal 168:MakeCredential 169:NV_ReadPublic 16a:PolicyAuthorize 16b:PolicyAuthValue 16c:PolicyCommandCode
    16d:PolicyCounterTimer 16e:PolicyCpHash 16f:PolicyLocality 170:PolicyNameHash 171:PolicyOR 172:PolicyTicket 173:ReadPublic
    174:RSA_Encrypt 176:StartAuthSession 177:VerifySignature 178:ECC_Parameters 179:FirmwareRead 17a:GetCapability 17b:GetRandom
    17c:GetTestResult 17d:Hash 17e:PCR_Read 17f:PolicyPCR 180:PolicyRestart 181:ReadClock 182:PCR_Extend 183:PCR_SetAuthValue
    184:NV_Certify 185:EventSequenceComplete 186:HashSequenceStart 187:PolicyPhysicalPresence 188:PolicyDuplicationSelect
    189:PolicyGetDigest 18a:TestParms 18b:Commit 18c:PolicyPassword 18d:ZGen_2Phase 18e:EC_Ephemeral
''')
GENERIC_ERRORS = _table('''
    0:INITIALIZE 1:FAILURE 3:SEQUENCE b:PRIVATE 19:HMAC 20:DISABLED 21:EXCLUSIVE 24:AUTH_TYPE 25:AUTH_MISSING 26:POLICY 27:PCR
    28:PCR_CHANGED 2d:UPGRADE 2e:TOO_MANY_CONTEXTS 2f:AUTH_UNAVAILABLE 30:REBOOT 31:UNBALANCED 42:COMMAND_SIZE 43:COMMAND_CODE
    44:AUTHSIZE 45:AUTH_CONTEXT 46:NV_RANGE 47:NV_SIZE 48:NV_LOCKED 49:NV_AUTHORIZATION 4a:NV_UNINITIALIZED 4b:NV_SPACE
    4c:NV_DEFINED 50:BAD_CONTEXT 51:CPHASH 52:PARENT 53:NEEDS_TEST 54:NO_RESULT 55:SENSITIVE
''')
HANDLE_ERRORS = _table('''
    1:ASYMMETRIC 2:ATTRIBUTES 3:HASH 4:VALUE 5:HIERARCHY 7:KEY_SIZE 8:MGF 9:MODE a:TYPE b:HANDLE c:KDF d:RANGE e:AUTH_FAIL f:NONCE
    10:PP 12:SCHEME 15:SIZE 16:SYMMETRIC 17:TAG 18:SELECTOR 1a:INSUFFICIENT 1b:SIGNATURE 1c:KEY 1d:POLICY_FAIL 1f:INTEGRITY
    20:TICKET 21:RESERVED_BITS 22:BAD_AUTH 23:EXPIRED 24:POLICY_CC 25:BINDING 26:CURVE 27:ECC_POINT
''')
WARNINGS = _table('''
    1:CONTEXT_GAP 2:OBJECT_MEMORY 3:SESSION_MEMORY 4:MEMORY 5:SESSION_HANDLES 6:OBJECT_HANDLES 7:LOCALITY 8:YIELDED 9:CANCELED
    a:TESTING 10:REFERENCE_H0 11:REFERENCE_H1 12:REFERENCE_H2 13:REFERENCE_H3 14:REFERENCE_H4 15:REFERENCE_H5 16:REFERENCE_H6
    18:REFERENCE_S0 19:REFERENCE_S1 1a:REFERENCE_S2 1b:REFERENCE_S3 1c:REFERENCE_S4 1d:REFERENCE_S5 1e:REFERENCE_S6 20:NV_RATE
    21:LOCKOUT 22:RETRY 23:NV_UNAVAILABLE
''')

OTHER = {
    "TPM_ST_NULL": 0x8000, "TPM_ST_NO_SESSIONS": 0x8001, "TPM_ST_SESSIONS": 0x8002, "TPM_ST_RSP_COMMAND": 0xC4, "TPM_SU_Size": 2,
    "TPM_SU_CLEAR": 0, "TPM_SU_STATE": 1, "TPM_SE_HMAC": 0, "TPM_SE_POLICY": 1, "TPM_SE_TRIAL": 3, "TPM_RH_OWNER": 0x40000001,
    "TPM_RH_NULL": 0x40000007, "TPM_RS_PW": 0x40000009, "TPM_RH_LOCKOUT": 0x4000000A, "TPM_RH_ENDORSEMENT": 0x4000000B,
    "TPM_RH_PLATFORM": 0x4000000C, "TPM_RH_PLATFORM_NV": 0x4000000D, "TPM_ALG_RSA": 1, "TPM_ALG_SHA1": 4, "TPM_ALG_HMAC": 5,
    "TPM_ALG_AES": 6, "TPM_ALG_KEYEDHASH": 8, "TPM_ALG_XOR": 10, "TPM_ALG_SHA256": 11, "TPM_ALG_SHA384": 12, "TPM_ALG_SHA512": 13,
    "TPM_ALG_NULL": 16, "TPM_ALG_SM3_256": 18, "TPM_ALG_RSASSA": 20, "TPM_ALG_RSAES": 21, "TPM_ALG_RSAPSS": 22, "TPM_ALG_OAEP": 23,
    "TPM_ALG_ECDSA": 24, "TPM_ALG_ECDH": 25, "TPM_ALG_ECC": 35, "TPM_ALG_SYMCIPHER": 37, "TPM_ALG_CTR": 64, "TPM_ALG_CFB": 67,
    "TPM_ALG_SHA": 4, "TPM_ALG_MGF1": 7, "TPM_ALG_SM4": 0x13, "TPM_ALG_ECDAA": 0x1A, "TPM_ALG_SM2": 0x1B, "TPM_ALG_ECSCHNORR": 0x1C,
    "TPM_ALG_ECMQV": 0x1D, "TPM_ALG_KDF1_SP800_56a": 0x20, "TPM_ALG_KDF2": 0x21, "TPM_ALG_KDF1_SP800_108": 0x22, "TPM_ALG_OFB": 0x41,
    "TPM_ALG_CBC": 0x42, "TPM_ALG_ECB": 0x44, "TPM_ST_ATTEST_NV": 0x8014, "TPM_ST_ATTEST_COMMAND_AUDIT": 0x8015,
    "TPM_ST_ATTEST_SESSION_AUDIT": 0x8016, "TPM_ST_ATTEST_CERTIFY": 0x8017, "TPM_ST_ATTEST_QUOTE": 0x8018, "TPM_ST_ATTEST_TIME": 0x8019,
    "TPM_ST_ATTEST_CREATION": 0x801A, "TPM_ST_CREATION": 0x8021, "TPM_ST_VERIFIED": 0x8022, "TPM_ST_AUTH_SECRET": 0x8023,
    "TPM_ST_HASHCHECK": 0x8024, "TPM_ST_AUTH_SIGNED": 0x8025, "TPM_ST_FU_MANIFEST": 0x8029, "TPM_RH_SRK": 0x40000000,
    "TPM_RH_REVOKE": 0x40000002, "TPM_RH_TRANSPORT": 0x40000003, "TPM_RH_OPERATOR": 0x40000004, "TPM_RH_ADMIN": 0x40000005,
    "TPM_RH_EK": 0x40000006, "TPM_RH_UNASSIGNED": 0x40000008, "TPM_RH_AUTH_00": 0x40000010, "TPM_RH_AUTH_FF": 0x4000010F,
    "TPM_CC_Size": 4, "TPM_ST_Size": 2, "TPM_ALG_Size": 2, "TPM_SE_Size": 1, "TPM_RH_Size": 4,
}

# the simulator's platform interface (TpmTcpProtocol.h of the reference code)
PLATFORM = {
    "TPM_SIGNAL_POWER_ON": 1, "TPM_SIGNAL_POWER_OFF": 2, "TPM_SIGNAL_PHYS_PRES_ON": 3, "TPM_SIGNAL_PHYS_PRES_OFF": 4,
    "TPM_SIGNAL_HASH_START": 5, "TPM_SIGNAL_HASH_DATA": 6, "TPM_SIGNAL_HASH_END": 7, "TPM_SEND_COMMAND": 8, "TPM_SIGNAL_CANCEL_ON": 9,
    "TPM_SIGNAL_CANCEL_OFF": 10, "TPM_SIGNAL_NV_ON": 11, "TPM_SIGNAL_NV_OFF": 12, "TPM_SIGNAL_KEY_CACHE_ON": 13,
    "TPM_SIGNAL_KEY_CACHE_OFF": 14, "TPM_REMOTE_HANDSHAKE": 15, "TPM_SET_ALTERNATIVE_RESULT": 16, "TPM_SIGNAL_RESET": 17,
    "TPM_SESSION_END": 20, "TPM_STOP": 21, "TPM_GET_COMMAND_RESPONSE_SIZES": 25, "TPM_TEST_FAILURE_MODE": 30,
}


# -- codes ----------------------------------------------------------------------------------------------------------


def gen_codes(tier):
    for c in range(0x100, 0x1A0):
        yield ["cc", c]
    for c in (-1, 0, 0x11E, 0xFFFFFFFF, 0x2000011F):
        yield ["cc", c]
    for n in ("", "TPM_CC_", "TPM_CC_FIRST", "TPM_CC_LAST", "tpm_cc_clear", "Clear", "TPM_CC_Clear ", "TPM_RC_INITIALIZE"):
        yield ["unknown", n]
    for n in OTHER:
        yield ["const", n]
    for n in PLATFORM:
        yield ["platform", n]
    hi = 0x4000 if tier == "quick" else 0x20000
    for c in range(hi):
        yield ["rc", c]
    for k in range(13, 32):
        for c in range(0x1000) if tier != "quick" else (0x100, 0x101, 0x184, 0x98E, 0x9C1, 0x921, 0xFFF):
            yield ["rc", (1 << k) | c]


def response(c):
    """the decoded response code, or None if the code is not defined"""
    if c == 0:
        return ("Success", "None", 0, "TPM_RC_SUCCESS", "NA")
    if not c & 0x180:
        return ("Tpm1.2 Response", "None", 0, 0, "NA")
    if c & 0x80:
        if c & 0x40:
            return ("Error", "Parameter", c >> 8 & 15, c & 0x3F, "NA")
        if c & 0x800:
            return ("Error", "Session", c >> 8 & 7, c & 0x3F, "NA")
        name = HANDLE_ERRORS.get(c & 0x3F)
        return name and ("Error", "Handle", c >> 8 & 7, c & 0x3F, "TPM_RC_" + name)
    if c & 0x400:
        return ("Vendor Defined Code", "None", 0, 0, "NA")
    if c & 0x800:
        name = WARNINGS.get(c & 0x7F)
        return name and ("Warning", "None", 0, "TPM_RC_" + name, "NA")
    name = GENERIC_ERRORS.get(c & 0x7F)
    return name and ("Error", "None", 0, c & 0x7F, "TPM_RC_" + name)


def run_codes(case, ctx):
    import edk2toollib.tpm.tpm2_defs as d

    kind, c = case
    ctx.state(case)
    if kind == "cc":
        name = COMMANDS.get(c)
        name = name and "TPM_CC_" + name
        ctx.eq(d.CommandCode.get_string(c), name, "get_string")
        if name:
            ctx.eq(d.CommandCode.get_code(name), c, "get_code")
            ctx.eq(getattr(d, name), c, "constant")
    elif kind == "unknown":
        ctx.eq(d.CommandCode.get_code(c), None, "get_code")
    elif kind == "platform":
        from edk2toollib.tpm.tpm2_simulator import PLAT_COMMANDS

        ctx.eq(PLAT_COMMANDS[c], PLATFORM[c], "platform command")
    elif kind == "const":
        ctx.eq(getattr(d, c), OTHER[c], "constant")
    else:
        name = GENERIC_ERRORS.get(c - 0x100)
        ctx.eq(d.ResponseCode.get_simple_string(c), name and "TPM_RC_" + name, "get_simple_string")
        want = response(c)
        try:
            got = d.ResponseCode.parse_code(c)
        except Exception:
            ctx.eq(None, want, f"parse_code({c:#x})")
            return
        ctx.eq(tuple(got), want, f"parse_code({c:#x})")


# -- command streams -----------------------------------------------------------------------------------------------

DATA = [b"", b"\0", b"abc", b"x" * 255, b"y" * 256, b"z" * 65535]
ELEMS = [["P", 1, 0], ["P", 1, 255], ["P", 2, 1], ["P", 2, 65535], ["P", 4, 0x80000000], ["P", 8, 2**64 - 1], ["P", 8, 1]] + [["B", i] for i in range(5)]
HEADS = [[0x8001, 0x144], [0xFFFF, 0xFFFFFFFF], [0, 0]]
STEPS = [["P", 2, 1], ["P", 8, 2**63], ["B", 0], ["B", 2], ["B", 3], ["again"], ["update", 0], ["update", 4], ["value", 7], ["get"]]


def gen_streams(tier):
    for h in range(len(HEADS)):
        for k in range(3 if tier == "quick" else 4):
            for t in itertools.product(range(len(ELEMS)), repeat=k):
                yield ["build", h, list(t)]
    for k in range(1, 5 if tier == "quick" else 6):
        for t in itertools.product(range(len(STEPS)), repeat=k):
            yield ["steps", 0, list(t)]
    yield ["big", 0, []]
    for s in (0, 3, 5, 16, -1):
        yield ["size", s, []]


def enc(m):
    return m[1].to_bytes(m[0], "big") if m[0] != "B" else struct.pack(">H", len(m[1])) + m[1]


def run_streams(case, ctx):
    import edk2toollib.tpm.tpm2_stream as s

    kind, h, t = case
    if kind == "size":
        try:
            s.Tpm2StreamPrimitive(h, 0)
        except ValueError:
            ctx.step()
            return
        ctx.fail(f"a primitive of {h} bytes was accepted")
    tag, code = HEADS[h]
    st = s.Tpm2CommandStream(tag, 0, code)
    model, objs = [], []

    def new(e):
        if e[0] == "P":
            model.append([e[1], e[2]])
            objs.append(s.Tpm2StreamPrimitive(e[1], e[2]))
        else:
            model.append(["B", DATA[e[1]]])
            objs.append(s.TPM2B(DATA[e[1]]))
        st.add_element(objs[-1])

    def look():
        body = b"".join(enc(m) for m in model)
        want = struct.pack(">HLL", tag, 10 + len(body), code) + body
        ctx.eq(st.get_size(), len(want), "get_size")
        ctx.eq(st.get_stream(), want, "get_stream")
        for o, m in zip(objs, model):
            ctx.eq((o.marshal(), o.get_size()), (enc(m), len(enc(m))), "element")
        ctx.state(want)

    if kind == "big":
        new(["B", 5])
        new(["B", 5])
    elif kind == "build":
        for i in t:
            new(ELEMS[i])
    else:
        for i in t:
            op = STEPS[i]
            if op[0] in "PB":
                new(op)
            elif op[0] == "again":  # the same element once more
                if objs:
                    objs.append(objs[-1])
                    model.append(model[-1])
                    st.add_element(objs[-1])
            elif op[0] == "update":
                k = [i for i, m in enumerate(model) if m[0] == "B"]
                if k:
                    objs[k[0]].update_data(DATA[op[1]])
                    model[k[0]][1] = DATA[op[1]]
            elif op[0] == "value":
                k = [i for i, m in enumerate(model) if m[0] != "B"]
                if k:
                    objs[k[-1]].value = op[1]
                    model[k[-1]][1] = op[1]
            else:
                look()
    look()
    hd = s.TPM2_COMMAND_HEADER(tag, 1, code)
    for n in (10, 2**32 - 1):
        hd.update_size(n)
        ctx.eq((hd.marshal(), hd.get_size()), (struct.pack(">HLL", tag, n, code), 10), "header")


# -- policies ----------------------------------------------------------------------------------------------------------

# primitives: ["L", localities] or ["C", code]; trees: ["solo", p], ["and", [p]], ["or", [t]]
PRIM = [["L", [0]], ["L", [3, 4]], ["L", [200]], ["C", 0x126], ["C", 0x18E]]


def gen_policy(tier):
    base = [["solo", p] for p in PRIM]
    for k in range(4 if tier == "quick" else 5):
        for t in itertools.product(PRIM, repeat=k):
            base.append(["and", list(t)])
    for t in base:
        yield [t]
    small = base[:5] + [["and", []], ["and", PRIM[:1]], ["and", PRIM[1:4]], ["and", [PRIM[3], PRIM[0]]]]
    for k in range(0, 4 if tier == "quick" else 5):
        for t in itertools.product(small, repeat=k):
            yield [["or", list(t)]]
    ors = [["or", list(t)] for k in range(3) for t in itertools.product(small[:3] + small[6:8], repeat=k)]
    for a, b in itertools.product(ors, ors + small):
        yield [["or", [a, b]]]
        yield [["or", [b, ["or", [a]]]]]
    for n in range(4, 10):
        yield [["or", [small[i % len(small)] for i in range(n)]]]
        yield [["or", [["or", small[:i]] for i in range(n)]]]
    for p in [["L", x] for x in localities()]:
        yield [["solo", p]]
    for c in COMMANDS:
        yield [["and", [["C", c]]]]


def localities():
    yield None
    for k in range(6):
        for t in itertools.permutations(range(5), k):
            yield list(t)
    for t in itertools.product(range(3), repeat=3):
        yield list(t)
    for v in range(-2, 300):
        yield [v]
        for w in (0, 4, 5, 32, 255):
            yield [v, w]
            yield [w, 1, v]


def prim(p):
    """the command as it is hashed, or None if the TPM does not know it"""
    if p[0] == "C":
        return struct.pack(">LL", 0x16C, p[1])
    loc = p[1] or []
    if any(not (0 <= v < 5 or 32 <= v < 256) for v in loc) or (len(loc) > 1 and any(v >= 32 for v in loc)):
        return None
    return struct.pack(">LB", 0x16F, loc[0] if loc and loc[0] >= 32 else functools.reduce(lambda a, v: a | 1 << v, loc, 0))


def digest(t, h):
    n = hashlib.new(h).digest_size
    if t[0] == "or":
        return hashlib.new(h, bytes(n) + struct.pack(">L", 0x171) + b"".join(digest(x, h) for x in t[1])).digest()
    d = bytes(n)
    for p in [t[1]] if t[0] == "solo" else t[1]:
        d = hashlib.new(h, d + prim(p)).digest()
    return d


def bad(t):
    if t[0] in ("solo", "and"):
        return any(prim(p) is None for p in ([t[1]] if t[0] == "solo" else t[1]))
    return len(t[1]) > 8 or any(bad(x) for x in t[1])


def mk(t):
    import edk2toollib.tpm.tpm2_policy_calc as pc

    if t[0] == "L":
        return pc.PolicyLocality(t[1])
    if t[0] == "C":
        return pc.PolicyCommandCode("TPM_CC_" + COMMANDS[t[1]])
    if t[0] == "solo":
        return pc.PolicyTreeSolo(mk(t[1]))
    return {"and": pc.PolicyTreeAnd, "or": pc.PolicyTreeOr}[t[0]]([mk(x) for x in t[1]])


def run_policy(case, ctx):
    import edk2toollib.tpm.tpm2_policy_calc as pc

    t = case[0]
    try:
        o = mk(t)
    except ValueError:
        ctx.true(bad(t), "a valid policy was refused")
        ctx.state(case)
        return
    ctx.true(not bad(t), "an invalid policy was accepted")
    ctx.eq((o.get_type(), o.validate()), (t[0], True), "type and validity")
    for h in ("sha256", "sha384", "sha256"):
        ph = pc.PolicyHasher(h)
        ctx.eq(ph.get_size(), hashlib.new(h).digest_size, "size of the hash")
        ctx.eq(o.get_policy(ph), digest(t, h), "digest")
        ctx.eq(o.get_policy(ph), digest(t, h), "digest, again")
    ctx.state(case)


# parts that do not fit: an AND or SOLO of trees, an OR of primitives or other things, unknown names
WRONG = [["and", ["and", []]], ["and", ["or", []]], ["solo", ["and", []]], ["solo", ["or", []]], ["and", None], ["solo", None], ["and", 5], ["solo", "x"]]


def gen_wrong(tier):
    for i in range(len(WRONG)):
        yield ["tree", i]
    for x in ("L", "C", "str", "None", "nested"):
        for n in range(3):
            yield ["or", x, n]
    for c in ("", "None", "TPM_CC_Nothing", "tpm_cc_clear", "Clear"):
        yield ["code", c]
    for h in ("sha1", "sha512", "SHA256", "", "sha3_256", "md5"):
        yield ["hash", h]


def run_wrong(case, ctx):
    import edk2toollib.tpm.tpm2_policy_calc as pc

    ctx.state(case)
    if case[0] == "or":
        part = {"L": lambda: mk(PRIM[0]), "C": lambda: mk(PRIM[3]), "str": lambda: "x", "None": lambda: None, "nested": lambda: pc.PolicyTreeOr([mk(PRIM[0])])}[case[1]]()
        parts = [mk(["solo", PRIM[0]]), mk(["and", PRIM[:2]])]
        parts.insert(case[2], part)
        ctx.eq(pc.PolicyTreeOr(parts).validate(), False, "validity")
        return
    try:
        if case[0] == "tree":
            k, x = WRONG[case[1]]
            x = mk(x) if isinstance(x, list) else x
            pc.PolicyTreeAnd([mk(PRIM[0]), x]) if k == "and" else pc.PolicyTreeSolo(x)
        elif case[0] == "code":
            pc.PolicyCommandCode(case[1] if case[1] != "None" else None)
        else:
            pc.PolicyHasher(case[1])
    except ValueError:
        ctx.step()
        return
    ctx.fail(f"{case} was accepted")


SUITES = [
    Suite("codes", gen_codes, run_codes, "command codes, response codes and constants", {"quick": "all response codes of 14 bits, all command codes", "thorough": "all response codes of 17 bits and single higher bits"}),
    Suite("streams", gen_streams, run_streams, "command streams and updates of their elements", {"quick": "<=2 of 12 elements; <=4 of 10 steps", "thorough": "<=3 of 12 elements; <=5 of 10 steps"}),
    Suite("policies", gen_policy, run_policy, "digests of policy trees", {"quick": "ANDs of <=3, ORs of <=3 parts in two levels, all localities and commands", "thorough": "ANDs and ORs of <=4"}),
    Suite("refused", gen_wrong, run_wrong, "parts that do not fit", "all kinds of wrong parts"),
]
