#!/usr/bin/env python3
"""Writes known-findings.json (run by hand; no check writes it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 {
  "property": "C07",
  "key": "dimstyle-105",
  "what": "the handle of a DIMSTYLE record is in group code 105, which the generated table reader (build/table_generator.rs) ignores: a loaded dimension style gets a new handle"
 },
 {
  "property": "C08",
  "key": "table-owner",
  "what": "the owner handle (330) of a table record is never written (build/table_generator.rs): an owner set on a table record does not resolve after save and load"
 },
 {
  "property": "C14",
  "key": "mline-vertices",
  "what": "vertices, segment and miter directions of an MLINE are written in codes 10/11/12 but read from 11/12/13 (spec/EntitiesSpec.xml)"
 },
 {
  "property": "C14",
  "key": "wipeout-clipping",
  "what": "the y of WIPEOUT clipping vertices is written in code 24 but declared for reading in 12 (spec/EntitiesSpec.xml)"
 },
 {
  "property": "C14",
  "key": "underlay-points-dgn",
  "what": "the y of DGN underlay boundary points is written in code 12 but read from 21 (spec/EntitiesSpec.xml)"
 },
 {
  "property": "C14",
  "key": "underlay-points-dwf",
  "what": "the y of DWF underlay boundary points is written in code 12 but read from 21 (spec/EntitiesSpec.xml)"
 },
 {
  "property": "C14",
  "key": "underlay-points-pdf",
  "what": "the y of PDF underlay boundary points is written in code 12 but read from 21 (spec/EntitiesSpec.xml)"
 },
 {
  "property": "C15",
  "key": "renderenvironment",
  "what": "several fields of RENDERENVIRONMENT share a group code and the reader keeps only one of them (spec/ObjectsSpec.xml)"
 },
 {
  "property": "C15",
  "key": "renderglobal",
  "what": "several fields of RENDERGLOBAL share a group code and the reader keeps only one of them (spec/ObjectsSpec.xml)"
 },
 {
  "property": "C15",
  "key": "mentalray",
  "what": "several fields of MENTALRAYRENDERSETTINGS share a group code and the reader keeps only one of them (spec/ObjectsSpec.xml)"
 },
 {
  "property": "C15",
  "key": "rapidrt",
  "what": "several fields of RAPIDRTRENDERSETTINGS share a group code and the reader keeps only one of them (spec/ObjectsSpec.xml)"
 },
 {
  "property": "C15",
  "key": "material-gloss",
  "what": "specular_gloss_factor of MATERIAL is never written (spec/ObjectsSpec.xml)"
 },
 {
  "property": "C15",
  "key": "material-vtile",
  "what": "map_v_tile of MATERIAL is never written (spec/ObjectsSpec.xml)"
 }
]
D = '''C01 6f78c7a a trailing caret and non-Latin characters after a caret were changed by un-escaping
C02 e343d02 text containing or bordering on \\U+XXXX look-alikes changed in text files before R2007
C02 a8b714f non-ASCII text of binary files was read as single-byte characters
C02 f00ea7b a text value starting with U+FEFF lost it
C21 0a4ae8e an INSERT kept only its first attribute when attributes carry MTEXT
C18 059a555 XDATA of an INSERT or POLYLINE moved to its last child
C07 43c7a29 handles of vertices, attributes and SEQENDs were replaced on load
C17 a67861d loading a block added a second block record
C07 059daf8 handles of a block's entities were replaced on load
C07 4447fd7 a handle in use by a loaded record could be given out again
C19 3952300 errors inside entities and objects silently dropped the item
C18 6ab0f6b XDATA of a block was attached to ENDBLK and lost
C19 19d5100 a BLOCK without ENDBLK looped forever
C03 4cc1620 binary data longer than 255 bytes corrupted binary files
C12 d52e3d6 layer colour -32768 overflowed
C07 10ac8d0 the largest handle overflowed
C07 a7ac411 the empty handle was assigned when $HANDSEED is 0
C24 34a9c5a save_file* reported success when the last buffer could not be written
C10 6c5bd48 the two words of a proxy entity's drawing format overwrote each other
C25 f9b1ed1 dates shifted by up to a second, huge values panicked
C15 4e8880f matrices of MATERIAL and elements of MLINESTYLE were lost
C15 e1e8c60 the specular map of a MATERIAL was read into another field
C15 381de5b the hard owner flag of a DICTIONARY was not written
C15 8b2712b lights and version of a LIGHTLIST were lost
C15 1ba7d21 XRECORD data grew by its own flag and XDATA
C15 96c5038 SUNSTUDY dates and hours were written with other types than read
C15 00a5501 SPATIAL_FILTER matrices were swapped
C15 920b10b DATATABLE cells were lost, wrong counts panicked
C15 d17d743 SectionTypeSettings merged; endless loop after the last one
C15 f1ae874 the object after a TABLESTYLE was lost
C19 9a3ea00 deeply nested groups overflowed the stack
C23 9d74446 an invalid thumbnail header size overflowed
C22 ad3ec45 the end of a DXB file inside a scale factor was not reported
C22 c58f779 DXB lost the entities of a drawing with blocks
C22 ffa615b DXB lost bulges and widths
C14 c6f95b0 dimensions of files before R13 were dropped
C09 a8b08ff a second normalize changed the view port
C07 0428112 a copied entity shared the handles of its vertices or attributes with the original'''
fixed = []
for l in D.splitlines():
    p, h, w = l.split(' ', 2)
    fixed.append('fixed: property=%s %s %s' % (p, h, w))
json.dump({'findings': F, 'fixed': fixed}, open(os.path.join(ROOT, 'known-findings.json'), 'w'), indent=1)
