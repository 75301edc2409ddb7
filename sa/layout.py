"""What the project's object model says about heap objects: tag -> record, and the extent of trailing arrays."""
TNIL = 0x250000
TAGS = dict(TNIL=0, TNUMBER=1, TBOOLEAN=2, TDOUBLE=3, TINTEGER=4, TSTRING=5, TWEAK=6, TCLOSURE=7, TTUPLE=8, TSTATE=9,
            TFILE=10, TOBJECT=11, TVTABLE=12, TSOURCE=13, TBYTES=14, TPROTO=15, TLOBBY=16, TTABLE=17, TLICK=18,
            TFLEX=19, TSTRINGS=20, TERROR=21, TCONT=22, TUSER=23)
TAGS = {k: TNIL + v for k, v in TAGS.items()}
TAGNAME = {v: k for k, v in TAGS.items()}
FWD, COPIED = 0xFFFFFFFE, 0xFFFFFFFF
RECORD = {  # tag -> the record it is
    "TNUMBER": "PNDouble", "TSTRING": "PNString", "TWEAK": "PNWeakRef", "TCLOSURE": "PNClosure", "TTUPLE": "PNTuple",
    "TSTATE": "Potion_State", "TFILE": "PNFile", "TVTABLE": "PNVtable", "TSOURCE": "PNSource", "TBYTES": "PNBytes",
    "TPROTO": "PNProto", "TTABLE": "PNTable", "TLICK": "PNLick", "TFLEX": "PNFlex", "TSTRINGS": "PNTable",
    "TERROR": "PNError", "TCONT": "PNCont", "TUSER": "PNData"}
# trailing array of the record: (array field, field holding the number of elements allocated, element size, slack)
EXTENT = {"TSTRING": ("chars", "len", 1, 1), "TCLOSURE": ("data", "extra", 8, 0), "TTUPLE": ("set", "alloc", 8, 0),
          "TBYTES": ("chars", "siz", 1, 0), "TFLEX": ("ptr", "siz", 1, 0), "TCONT": ("stack", "len", 8, 0),
          "TUSER": ("data", "siz", 1, 0)}
# number of live references in a trailing array of references
LIVE = {"TCLOSURE": ("data", "extra"), "TTUPLE": ("set", "len"), "TFLEX": ("ptr", "len")}
