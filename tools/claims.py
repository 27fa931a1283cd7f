NOTE = ("Decided on every abstract path of the current MIR by an abstract interpreter with unbounded symbolic collections, loop fixpoints and trace partitioning; "
        "paths that use constructs the interpreter does not model are reported UNDECIDED and not counted. Trusts rustc's MIR and the library models in engine/models.py.")
TF = "abstract interpretation of MIR: transition function of each public operation over a symbolic artifact, compared with the documented transition on every path"
CLAIMS = {i: (TF, NOTE) for i in ("F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F09", "F10", "F11")}
TE = ("abstract interpretation of MIR: symbolic file image of the ELF writer on artifacts made of unbounded populations of definitions, imports and links, read back with an abstract "
      "ELF reader and compared with the specification")
CLAIMS.update({i: (TE, NOTE) for i in ("E01", "E02", "E03", "E04", "E05", "E06", "E07", "E08", "E09", "E10", "T01")})
TM = ("abstract interpretation of MIR: symbolic file image of the Mach-O writer on artifacts made of unbounded populations of definitions, imports and links, read back with an abstract "
      "Mach-O reader and compared with the specification")
CLAIMS.update({i: (TM, NOTE) for i in ("M01", "M02", "M03", "M04", "M05", "M06", "M07", "M08", "T02")})
NA = {}
