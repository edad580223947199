# debugging aid: where is the JSON in a dumped export wrong
import json, struct, sys
b = open(sys.argv[1], 'rb').read()
if b[:4] == b'glTF': b = b[20:20 + struct.unpack('<I', b[12:16])[0]]
try: json.loads(b); print("valid")
except Exception as e:
    i = getattr(e, 'start', getattr(e, 'pos', 0)); print(e); print(b[max(0, i - 200):i + 200])
