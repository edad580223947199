#!/usr/bin/env python3
# Writes known_findings.txt: which property each fix: commit of /repo repaired (subject prefix -> property).
import subprocess, sys
V="/verif"
MAP = [("GltfDataBuffer::FromPath reports","C02"),("GltfFileStream survives","C02"),("MappedGltfFile provides","C01"),("determineGltfFileType rewinds","C01"),("loading fails when the source","C02"),
("GLB chunks have to lie","C05"),("a parser does not carry","C06"),("the GLB binary chunk is kept","C09"),("an exception from a user's","C14"),("an external buffer or image","C03"),("buffers have to hold","C03"),
("base64 decoding stays","C04"),("parsing a URI never","C04"),("percent-encoded delimiters","C24"),("scenes without nodes","C24"),("a texture info without texCoord","C24"),("nodes with morph target","C24"),("a node with a matrix and ext","C24"),
("an invalid material extension","C24"),("a box shape of default","C24"),("an empty asset version","C04"),("material variant mappings refer","C04"),("an unknown primitive mode","C04"),("generated mesh indices","C04"),
("validate() checks","C04"),("every exported string","C12"),("pretty-printing recognises","C12"),("an exporter does not report","C07"),("writeGltfBinary honours","C12"),("exporting a GLB does not","C04"),("spot lights are","C12"),
("MSFT_packing","C12"),("collision filters are","C12"),("physics rigid bodies are","C12"),("a motion's inertia","C12"),("exporting material variant","C04"),("exported URIs are","C12"),("the MIME type of images","C12"),
("a mesh without primitives","C12"),("a texture with nothing","C12"),("exported buffers and images stay","C16"),("a file export creates","C10")]
exec(open(V+"/tools/known_extra.py").read())
out = ["# Findings about spnda/fastgltf at the pinned commit. 'fixed:' entries suppress nothing; see DESIGN.md for the format."]
for l in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines():
    h, s = l.split(" ",1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    m = [p for k,p in MAP if s.startswith(k)]
    if len(m)!=1: print("unmapped:", s); continue
    out.append("fixed: property=%s %s %s" % (m[0], h, WRONG.get(s[:20], "did not hold before: " + s)))
out += KNOWN
open(V+"/known_findings.txt","w").write("\n".join(out)+"\n")
