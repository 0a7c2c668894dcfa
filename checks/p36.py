"""P36: a device path is decoded into exactly its nodes, or refused."""

import base64
import itertools
import json
import re
import struct
import uuid

from lib.mc import Suite
from lib.sizes import counts

HW, ACPI, MSG, MEDIA, BBS, END = 1, 2, 3, 4, 5, 0x7F
TYPES = {HW: "Hardware", ACPI: "ACPI", MSG: "Messaging", MEDIA: "Media", BBS: "BIOS Boot Specification", END: "End of Hardware"}
NAMES = {
    HW: {1: "PCI", 2: "PCCARD", 3: "Memory Mapped", 4: "Vendor", 5: "Controller", 6: "BMC"},
    ACPI: {1: "ACPI HID", 2: "ACPI Extended HID"},
    MSG: {
        1: "ATAPI", 2: "SCSI", 3: "Fibre Channel", 4: "1394", 5: "USB", 6: "I2O", 9: "InfiniBand", 10: "Vendor", 11: "MAC Address", 12: "IPv4", 13: "IPv6",
        14: "UART", 15: "USB Class", 16: "USB WWID", 17: "Device Logical Unit", 18: "SATA", 19: "iSCSI", 20: "VLAN", 21: "Fibre Channel Extended",
        22: "SAS Extended", 23: "NVMe Namespace", 24: "URI", 25: "UFS", 26: "SD", 27: "Bluetooth", 28: "WiFi", 29: "eMMC", 30: "Bluetooth LE", 31: "DNS",
    },
    MEDIA: {1: "Hard Drive", 2: "CD-ROM", 3: "Vendor", 4: "File Path", 5: "Protocol", 6: "PIWG Firmware File", 7: "PIWG Firmware Volume", 8: "Relative Offset Range"},
    BBS: {1: "BIOS Boot Specification"},
}
SIZES = {(HW, 1): 2, (HW, 2): 1, (ACPI, 1): 8, (MSG, 5): 2, (MSG, 11): 33, (MSG, 12): 23, (MSG, 18): 6, (MEDIA, 1): 38, (MEDIA, 4): 0, (MEDIA, 6): 16, (MEDIA, 7): 16,
         (MEDIA, 8): 20}
NVME = (MSG, 23)


class Bad(Exception):
    pass


# -- an independent reader -----------------------------------------------------------------------------------------


def ip(b):
    return ".".join(str(x) for x in b)


def fields(ty, sub, d):
    """(attributes, dictionary) of a node with data d; None if it is not one of the decoded kinds."""
    k = (ty, sub)
    if k in SIZES and len(d) < SIZES[k]:
        raise Bad()
    if k == (HW, 1):
        return {"function": d[0], "device": d[1]}, {"Function": d[0], "Device": d[1]}
    if k == (HW, 2):
        return {"function_number": d[0]}, {"FunctionNumber": d[0]}
    if k == (ACPI, 1):
        h, u = struct.unpack("<II", d[:8])
        return {"hid": h, "uid": u}, {"HID": "%X" % h, "UID": "%X" % u}
    if k == (MSG, 5):
        return {"parent_port_number": d[0], "interface_number": d[1]}, {"ParentPortNumber": d[0], "InterfaceNumber": d[1]}
    if k == (MSG, 11):
        return {"mac_address.addr": list(d[:32]), "if_type": d[32]}, {"MacAddress": {"Addr": ":".join("%02X" % x for x in d[:32])}, "IfType": d[32]}
    if k == (MSG, 12):
        lp, rp, pr = struct.unpack("<HHH", d[8:14])
        a = {"local_ip_address.addr": list(d[:4]), "remote_ip_address.addr": list(d[4:8]), "local_port": lp, "remote_port": rp, "protocol": pr,
             "static_ip_address": d[14] != 0, "gateway_ip_address.addr": list(d[15:19]), "subnet_mask.addr": list(d[19:23])}
        return a, {"LocalIpAddress": ip(d[:4]), "RemoteIpAddress": ip(d[4:8]), "LocalPort": lp, "RemotePort": rp, "Protocol": pr, "StaticIpAddress": d[14] != 0,
                   "GatewayIpAddress": ip(d[15:19]), "SubnetMask": ip(d[19:23])}
    if k == (MSG, 18):
        p, m, lun = struct.unpack("<HHH", d[:6])
        return ({"hba_port_number": p, "port_multiplier_port_number": m, "lun": lun}, {"HBAPortNumber": p, "PortMultiplierPortNumber": m, "Lun": lun})
    if k == (MEDIA, 1):
        n, s, z, g, m, t = struct.unpack("<IQQ16sBB", d[:38])
        return ({"partition_number": n, "partition_start": s, "partition_size": z, "signature": g, "MBR_type": m, "signature_type": t},
                {"PartitionNumber": n, "PartitionStart": s, "PartitionSize": z, "Signature": g.hex().upper(), "MBRType": m, "SignatureType": t})
    if k == (MEDIA, 4):
        try:
            s = d.decode("utf-16-le")
        except UnicodeDecodeError:
            raise Bad() from None
        while s.endswith("\0"):
            s = s[:-1]
        return {"path_name": s}, {"PathName": s}
    if k == (MEDIA, 6):
        u = uuid.UUID(bytes_le=d[:16])
        return {"fv_file_name": u}, {"FvFileName": str(u).upper()}
    if k == (MEDIA, 7):
        u = uuid.UUID(bytes_le=d[:16])
        return {"fv_name": u}, {"FvName": str(u).upper()}
    if k == (MEDIA, 8):
        r, s, e = struct.unpack("<IQQ", d[:20])
        return {"reserved": r, "starting_offset": s, "ending_offset": e}, {"Reserved": r, "StartingOffset": s, "EndingOffset": e}
    if k == NVME:
        return None
    return {}, ({} if ty == END else {"data": base64.b64encode(d).decode()})


def read(b):
    out, at = [], 0
    while at < len(b):
        if len(b) - at < 4:
            raise Bad()
        ty, sub, n = b[at], b[at + 1], b[at + 2] | b[at + 3] << 8
        if n < 4 or at + n > len(b):
            raise Bad()
        d = b[at + 4:at + n]
        out.append((ty, sub, n, d, fields(ty, sub, d)))
        at += n
    return out


# -- observations --------------------------------------------------------------------------------------------------


def plain(x):
    if isinstance(x, tuple) and len(x) == 1:  # the interface type, see DESIGN.md
        return x[0]
    return x


def attr(o, name):
    for p in name.split("."):
        o = getattr(o, p)
    return plain(o)


def norm(s):
    return re.sub("[^a-z0-9]", "", s.lower())


def node(b):
    ty, sub, d = b
    return bytes([ty, sub]) + struct.pack("<H", 4 + len(d)) + d


def observe(p, want, ctx):
    ty, sub, n, d, f = want
    ctx.eq((p.dev_type, p.dev_subtype, p.dev_length, bytes(p.dev_data)), (ty, sub, n, d), "header of a node")
    dic = p.__dict__()
    js = json.loads(str(p))
    if f is None:
        return
    for k, v in f[0].items():
        ctx.eq(attr(p, k), v, f"{k} of type {ty}/{sub}", key=f"{ty}/{sub} {k}")
    if ty == END:
        head = dic
        ctx.eq(js, dic, "text of an end node")
    else:
        ctx.eq(len(dic), 1, "keys of the dictionary")
        (title, body), = dic.items()
        ctx.eq(sorted(body), sorted(["Header", *f[1]]), f"entries of type {ty}/{sub}")
        for k, v in f[1].items():
            ctx.eq(plain(body[k]), v, f"{k} of type {ty}/{sub}", key=f"{ty}/{sub} {k}")
        head = body["Header"]
        ctx.eq(title, f"{head['type']} / {head['subtype']}", "title of a node")
        (jt, jb), = js.items()
        ctx.eq(jt, title, "title in the text")
        for k, v in f[1].items():
            got = jb[k][0] if isinstance(jb[k], list) else jb[k]
            ctx.eq(got, v, f"{k} in the text of type {ty}/{sub}", key=f"{ty}/{sub} {k}")
        ctx.eq(jb["Header"], head, "header in the text")
    ctx.eq(sorted(head), ["length", "subtype", "type"], "entries of a header")
    ctx.eq(head["length"], n, "length in the dictionary")
    if ty in TYPES:
        ctx.eq(norm(head["type"]), norm(TYPES[ty]), f"name of type {ty}")
        if sub in NAMES.get(ty, {}):
            ctx.eq(norm(head["subtype"]), norm(NAMES[ty][sub]), f"name of subtype {ty}/{sub}")
        elif ty != END:
            ctx.true(norm(head["subtype"]) not in {norm(x) for x in NAMES[ty].values()}, f"subtype {ty}/{sub} has the name {head['subtype']!r} of another one")
    else:
        ctx.true(norm(head["type"]) not in {norm(x) for x in TYPES.values()}, f"type {ty} has the name {head['type']!r} of another one")


def judge(b, ctx):
    from edk2toollib.uefi.device_path import DevicePathFactory

    try:
        want = read(b)
    except Bad:
        want = None
    try:
        got = DevicePathFactory.from_binary(b)
    except Exception as e:
        # an NVMe node and a node longer than its fields may be refused (see DESIGN.md)
        free = want is None or any(f is None or ((t, s) == (MEDIA, 1) and len(d) != 38) for t, s, n, d, f in want)
        ctx.true(free, f"a device path was refused: {type(e).__name__} {e}")
        return
    ctx.true(want is not None, "a malformed device path was accepted")
    ctx.eq(len(got), len(want), "number of nodes")
    for p, w in zip(got, want):
        observe(p, w, ctx)


# -- suites --------------------------------------------------------------------------------------------------------

SEQ = bytes(range(0x81, 0x81 + 64))
NODES = [
    (HW, 1, b"\x02\x1d"), (HW, 2, b"\x07"), (HW, 4, SEQ[:16]), (ACPI, 1, SEQ[:8]), (ACPI, 2, SEQ[:15]), (MSG, 5, b"\x03\x01"), (MSG, 11, SEQ[:33]),
    (MSG, 12, SEQ[:23]), (MSG, 18, SEQ[:6]), (MEDIA, 1, SEQ[:38]), (MEDIA, 4, "\\EFI\\Boot.efi\0".encode("utf-16-le")), (MEDIA, 6, SEQ[:16]), (MEDIA, 7, SEQ[1:17]),
    (MEDIA, 8, SEQ[:20]), (END, 0xFF, b""), (END, 1, b""), (BBS, 1, SEQ[:5]), (9, 1, b""), NVME + (b"\x01" + SEQ[:16] + b"nqn\0",),
]


def gen_nodes(tier):
    for k in range(0, 4 if tier == "quick" else 5):
        for c in itertools.product(range(len(NODES)), repeat=k):
            yield list(c)


def run_nodes(case, ctx):
    judge(b"".join(node(NODES[i]) for i in case), ctx)
    ctx.state(case)


def gen_bytes(tier):
    for i, (t, s, d) in enumerate(NODES):
        if (t, s) == (MEDIA, 4):
            continue
        for at in range(len(d)):
            for v in range(256):
                yield [i, at, v]


def run_bytes(case, ctx):
    i, at, v = case
    t, s, d = NODES[i]
    d = bytearray(d)
    d[at] = v
    judge(node(NODES[0]) + node((t, s, bytes(d))) + node(NODES[14]), ctx)
    ctx.state(case)


def gen_types(tier):
    for t in range(256):
        yield t


def run_types(case, ctx):
    for s in range(256):
        d = SEQ[:SIZES.get((case, s), 3)]
        judge(node((case, s, d)) + node(NODES[14]), ctx)
        ctx.state((case, s))
        if (case, s) in SIZES or (case, s) == NVME:
            continue
        for n in range(0, 9):
            judge(node((case, s, SEQ[:n])), ctx)
            ctx.state((case, s, n))


def gen_lengths(tier):
    for i in range(len(NODES)):
        yield ["sizes", i]
        yield ["cuts", i]
        yield ["fields", i]
    for v in list(range(0, 41)) + [0x7FFC, 0x7FFF, 0x8000, 0x8001, 0xFFF0, 0xFFFF]:
        yield ["big", v]


def run_lengths(case, ctx):
    what, i = case
    if what == "big":
        b = b"\x03\x18" + struct.pack("<H", i) + b"x" * max(0, i - 4)
        for k in (b, b + node(NODES[0]), b[:-1], node(NODES[3]) + b):
            judge(k, ctx)
            ctx.state((i, len(k)))
        return
    t, s, d = NODES[i]
    if what == "sizes":
        for n in range(0, 64):
            for rest in (b"", node(NODES[14]), node(NODES[0]) + node(NODES[14])):
                judge(node((t, s, SEQ[:n])) + rest, ctx)
                judge(node(NODES[3]) + node((t, s, SEQ[:n])) + rest, ctx)
                ctx.state((i, n, len(rest)))
    elif what == "cuts":
        for j in range(len(NODES)):
            b = node(NODES[i]) + node(NODES[j]) + node(NODES[14])
            for c in range(len(b)):
                judge(b[:c], ctx)
                judge(b[c:], ctx)
                ctx.state((i, j, c))
    else:
        for j in range(len(NODES)):
            b = bytearray(node(NODES[i]) + node(NODES[j]) + node(NODES[14]))
            for v in list(range(0, len(b) + 3)) + [0x100, 0x104, 0x7FFF, 0x8000, 0x8004, 0xFF00, 0xFFFC, 0xFFFF]:
                b[2:4] = struct.pack("<H", v)
                judge(bytes(b), ctx)
                ctx.state((i, j, v))


NAMESET = ["", "a", "\\", "ä", "漢", "\0", " ", "\U0001f600", "\"", "\n"]


def gen_files(tier):
    for k in range(0, 5 if tier == "quick" else 6):
        for c in itertools.product(range(1, len(NAMESET)), repeat=k):
            yield list(c)
    for v in range(256):
        for at in range(4):
            yield ["raw", at, v]


def run_files(case, ctx):
    if case[:1] == ["raw"]:
        d = bytearray("a漢".encode("utf-16-le"))
        d[case[1]] = case[2]
        ds = [bytes(d), bytes(d[:3]), bytes(d) + b"\0"]
    else:
        s = "".join(NAMESET[i] for i in case)
        ds = [(s + e).encode("utf-16-le") for e in ("", "\0", "\0\0")]
    for d in ds:
        judge(node(NODES[3]) + node((MEDIA, 4, d)) + node(NODES[14]), ctx)
        judge(node((MEDIA, 4, d)), ctx)
    ctx.state(case)


# -- sizes: number of nodes, length of names and of data ----------------------------------------------------------


def gen_sizes(tier):
    for n in counts(tier, 1025, 0, 72):
        yield ["nodes", n]
    for n in [*counts(tier, 4097, 0, 72), 32763, 32764]:
        yield ["name", n]
        for k in range(4):
            yield ["data", n, k]


def run_sizes(case, ctx):
    what, n = case[:2]
    if what == "nodes":
        judge(b"".join(node(NODES[i * 7 % (len(NODES) - 1)]) for i in range(n)), ctx)
    elif what == "name":
        d = ("\\x漢" * (n // 3 + 1))[:n].encode("utf-16-le")
        judge(node(NODES[3]) + node((MEDIA, 4, d)) + node(NODES[14]), ctx)
        judge(node(NODES[3]) + node((MEDIA, 4, d + b"\0\0")) + node(NODES[14]), ctx)
    else:
        t, s = [(9, 1), (HW, 9), (MEDIA, 3), (MSG, 10)][case[2]]
        judge(node(NODES[3]) + node((t, s, (SEQ * (n // 64 + 1))[:n])) + node(NODES[14]), ctx)
    ctx.state(tuple(case))


SUITES = [
    Suite("sizes", gen_sizes, run_sizes, "number of nodes, length of file names and of unknown data", "<=1025 nodes, names to 32764 characters"),
    Suite("nodes", gen_nodes, run_nodes, "the nodes found, their fields, dictionaries and texts", {"quick": "all sequences of <=3 of 19 nodes", "thorough": "all sequences of <=4 of 19 nodes"}),
    Suite("bytes", gen_bytes, run_bytes, "fields", "every value of every data byte of 17 kinds of nodes"),
    Suite("types", gen_types, run_types, "kinds and names", "all 65536 pairs of type and subtype, with 0 to 8 bytes of data"),
    Suite("lengths", gen_lengths, run_lengths, "malformed device paths", "all data sizes 0..63, all cuts of all pairs of nodes, all lengths in the header up to the buffer's and the ends of the range"),
    Suite("files", gen_files, run_files, "file names", {"quick": "all names of <=4 of 9 characters with 0..2 terminators, all bytes of two characters", "thorough": "<=5"}),
]
