exec(open("/verif/tools/bugs/b1.py").read().split("BUGS = [")[0])
ML = HEAD + '''
import struct, numpy as np
def msl(body, wide=0, thumb=0, pred=0, w=8, h=8):
    words = [0] * 16
    words[0] = (0xff if thumb else 0xf7) << 24
    words[5], words[8], words[9], words[15] = w // 8 << 8 | h // 8, pred << 8, 255 * wide, 0x1010cc28
    open(f"{d}/A.DAT", "wb").write(struct.pack(">16I", *words) + body)
    open(f"{d}/A.LBL", "w").write("\\\\r\\\\n".join([
        "PDS_VERSION_ID = PDS3", 'INSTRUMENT_HOST_NAME = "MARS SCIENCE LABORATORY"', "INSTRUMENT_ID = MAHLI",
        'DATA_SET_ID = "MSL-M-MAHLI-2-EDR-V1.0"', '^IMAGE = "A.IMG"', "OBJECT = IMAGE", f"LINES = {h}",
        f"LINE_SAMPLES = {w}", "SAMPLE_BITS = 8", "SAMPLE_TYPE = UNSIGNED_INTEGER", "END_OBJECT = IMAGE", "END", ""]))
    return np.squeeze(pdr.read(f"{d}/A.LBL")["IMAGE"])


def moc(data, table, mode=1, w=16, h=16, status=2, after=b""):
    head = bytearray(62)
    head[13], head[40:42], head[43] = status, struct.pack("<H", h // 16), w // 16
    head[44], head[45], head[58:62] = mode, table, struct.pack("<I", len(data))
    label = "\\\\r\\\\n".join([
        "PDS_VERSION_ID = PDS3", "RECORD_TYPE = FIXED_LENGTH", "RECORD_BYTES = 2048", 'FILE_NAME = "M1.IMQ"',
        "^IMAGE = 2", "SPACECRAFT_NAME = MARS_GLOBAL_SURVEYOR", 'INSTRUMENT_ID = "MOC-NA"', "DATA_QUALITY_DESC = OK",
        "OBJECT = IMAGE", f"LINES = {h}", f"LINE_SAMPLES = {w}", "SAMPLE_BITS = 8", "SAMPLE_TYPE = UNSIGNED_INTEGER",
        "END_OBJECT = IMAGE", "END", ""]).encode()
    open(f"{d}/M1.IMQ", "wb").write(label.ljust(2048) + bytes(head) + data + b"x" + after)
    return np.squeeze(pdr.read(f"{d}/M1.IMQ")["IMAGE"])


def lsb(text):
    text += "0" * (-len(text) % 8)
    return bytes(int(text[i:i + 8][::-1], 2) for i in range(0, len(text), 8))


LINE = bytes(range(50, 66))
'''.replace("\\\\r\\\\n", "\\r\\n")
import re
T = open("/verif/spec/MalinCodes.tla").read()
G = [[int(x) for x in re.findall(r"\d+", g)] for g in re.findall(r"<<([\d,\s]+)>>", T)]
def code(table, v): return bin(G[table + 1][v])[3:]
BUGS = [
 dict(id="moc-table-bits", property="C38",
  edits=[("pdr/formats/mgs_moc.py", "huffman_table_id = h.compression[1] & 0x0f", "huffman_table_id = h.compression[1] & 0x03")],
  needs="a Mars Orbiter Camera image compressed with table 4 or above",
  what_it_breaks="it is decoded with another table",
  demo=ML + f'''
got = moc(b"\\xca\\xf0" + LINE + lsb("{code(5, 1)}" * 240), 5)
assert got[0].tolist() == list(LINE) and got[7].tolist() == list(range(1, 17)), got
'''),
 dict(id="msl-wide-last", property="C38",
  edits=[("pdr/formats/msl_edr.py", "for i in range(0, bytes_read - 1, 2):", "for i in range(0, bytes_read - 2, 2):")],
  needs="an uncompressed 16-bit image of an MSL camera with nothing after it",
  what_it_breaks="the bytes of its last pixel are exchanged",
  demo=ML + '''
v = list(range(300, 364))
assert msl(struct.pack(">64H", *v), wide=1).ravel().tolist() == v
'''),
]
