"""What decides each property: driver, trace specification, model-checked modules, generated cases."""
CHECKS = {}
for _p in ["B01", "B02", "B03", "B04", "B05", "B06", "B07", "B09"]:
    CHECKS[_p] = {"bin": "buf", "trace": "TraceBuffer", "cases": {"module": "GenBuffer"}, "models": [{"module": "MCBuffer", "cfg": "MCBuffer2.cfg"}, {"module": "MCBuffer", "workers": 4, "heap": "6g", "thorough": True}]}
for _p in ["L01", "L02", "L04"]:
    CHECKS[_p] = {"bin": "core", "trace": "TraceLayout", "cases": {"module": "GenLayout"}, "models": [{"module": "MCLayout", "cfg": "MCLayout2.cfg"}, {"module": "MCLayout", "thorough": True}]}
for _p in ["V02", "M02"]:
    CHECKS[_p] = {"bin": "core", "trace": "TraceCasts"}
for _p, _t in [("B08", "TracePusher"), ("V01", "TraceConversion"), ("V03", "TraceUntyped"), ("M01", "TraceBoxes")]:
    CHECKS[_p] = {"bin": "core", "trace": _t}
for _p, _t in [("A01", "TraceExtrema"), ("A02", "TraceVoxel"), ("A03", "TraceHull"), ("A04", "TraceRansac"), ("A05", "TraceSurface"), ("A06", "TraceReproject")]:
    CHECKS[_p] = {"bin": "alg", "trace": _t, "features": ["alg"]}
CHECKS["L03"] = {"bin": "derive", "trace": "TraceLayout", "crate": "derive", "prepare": "derive_structs"}
CHECKS["B08"].update({"cases": {"module": "GenPusher"}, "models": [{"module": "MCPusher"}]})
CHECKS["V01"].update({"cases": {"module": "GenConversion"}, "models": [{"module": "MCConversion", "cfg": "MCConversion2.cfg"}, {"module": "MCConversion", "workers": 4, "thorough": True}]})
CHECKS["M01"].update({"cases": {"module": "GenBoxes"}, "models": [{"module": "MCBoxes", "cfg": "MCBoxes2.cfg"}, {"module": "MCBoxes", "workers": 4, "thorough": True}]})
CHECKS["A03"].update({"cases": {"module": "GenHull"}})
# what a wrapped or unchecked index could do is only seen without overflow checks
for _p in ["B04", "B05", "B09", "V03"]:
    CHECKS[_p]["optimized"] = True
for _p, _g, _m in [("A01", "GenExtrema", [{"module": "MCExtrema"}]),
                   ("A02", "GenVoxel", [{"module": "MCVoxel"}, {"module": "MCVoxel", "cfg": "MCVoxelDeep.cfg", "workers": 4, "thorough": True}]),
                   ("A04", "GenRansac", [{"module": "MCRansac", "cfg": "MCRansac2.cfg"}, {"module": "MCRansac", "workers": 4, "thorough": True}, {"module": "MCRansac", "cfg": "MCRansacPlane.cfg", "workers": 4, "thorough": True}]),
                   ("A05", "GenSurface", [])]:
    CHECKS[_p].update({"cases": {"module": _g}, "models": _m})
CHECKS["A03"]["models"] = [{"module": "MCHull"}]
CHECKS["A06"].update({"cases": {"module": "GenReproject"}, "models": [{"module": "MCReproject"}, {"module": "MCReproject", "cfg": "MCReprojectDeep.cfg", "workers": 4, "thorough": True}]})
CHECKS["V02"]["models"] = [{"module": "MCCasts"}, {"module": "MCCasts", "cfg": "MCCasts2.cfg"}, {"module": "MCCasts", "cfg": "MCCastsDeep.cfg", "thorough": True}]
CHECKS["M02"]["models"] = [{"module": "MCMath"}, {"module": "MCMath", "cfg": "MCMathDeep.cfg", "thorough": True}]
CHECKS["V03"].update({"cases": {"module": "GenUntyped"}, "models": [{"module": "MCUntyped"}, {"module": "MCUntyped", "cfg": "MCUntypedDeep.cfg", "workers": 4, "thorough": True}]})
CHECKS["A05"]["models"] = [{"module": "MCSurface"}, {"module": "MCSurface", "cfg": "MCSurfaceDeep.cfg", "workers": 4, "thorough": True}]
CHECKS["L03"]["models"] = CHECKS["L01"]["models"]
# readers and writers: a crate of its own, with stand-ins for the dependencies that are not here (io/stubs)
for _p, _t, _g, _m in [("I01", "TraceAscii", "GenAscii", [{"module": "MCAscii"}, {"module": "MCAscii", "cfg": "MCAsciiDeep.cfg", "workers": 4, "thorough": True}]),
                       ("I02", "TracePnts", "GenPnts", [{"module": "MCPnts"}, {"module": "MCPnts", "cfg": "MCPntsDeep.cfg", "workers": 4, "thorough": True}]),
                       ("I03", "TraceLas", "GenLas", [{"module": "MCLas"}, {"module": "MCLas", "cfg": "MCLasDeep.cfg", "workers": 4, "thorough": True}]),
                       ("I04", "TraceFiles", "GenFiles", [{"module": "MCFiles"}, {"module": "MCFiles", "cfg": "MCFilesDeep.cfg", "workers": 4, "thorough": True}]),
                       ("I05", "TraceTileset", "GenTileset", [{"module": "MCTileset"}, {"module": "MCTileset", "cfg": "MCTilesetDeep.cfg", "workers": 4, "thorough": True}])]:
    CHECKS[_p] = {"bin": "io", "crate": "io", "trace": _t, "cases": {"module": _g}, "models": _m}
