"""Inputs that the seed (or TLC) generates for a driver."""
import json, os, random, re

PRIMS = {"u8": "U8", "i8": "I8", "u16": "U16", "i16": "I16", "u32": "U32", "i32": "I32", "u64": "U64", "i64": "I64", "f32": "F32", "f64": "F64",
         "Vector3<u8>": "Vec3u8", "Vector3<u16>": "Vec3u16", "Vector3<i32>": "Vec3i32", "Vector3<f32>": "Vec3f32", "Vector3<f64>": "Vec3f64",
         "Vector4<u8>": "Vec4u8"}


def builtins(here):
    """The attribute names pasture documents, from the specification."""
    s = open(os.path.join(here, "spec", "Layout.tla")).read()
    return re.findall(r'<<"([A-Z0-9_]+)", "(\w+)", "(\w+)">>', s)


def derive_structs(ctx):
    """Rust structs that derive PointType: any mix and order of field types, names and representations."""
    rnd = random.Random(ctx["seed"] * 7919 + 5)
    n = 160 if ctx["tier"] == "quick" else 700
    names = builtins(ctx["here"])
    by_type = {v: k for k, v in PRIMS.items()}
    custom = ["Amplitude", "classification", "a b", "x", "Position3d", "größe", "attribute", "BUILTIN_NIR", "Deviation", "q1", "q2", "q3", "q4", "Intensity ", "nIR"]
    out, calls = [], []
    made = [json.loads(x) for x in open(cases(ctx, {"module": "GenDerive"}))]   # what the specification made up
    for k in range(n + len(made)):
        case = made[k - n] if k >= n else None
        m = rnd.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8, 11])
        if k == 0:  # every built-in attribute with its own type
            fields = [("BUILTIN_" + c, nm, by_type[t]) for c, nm, t in names]
            rnd.shuffle(fields)
        elif case:
            fields, used = [], set()
            for t in case["fs"]:
                c, nm = rnd.choice([("BUILTIN_" + c, nm) for c, nm, _ in names if nm not in used] + [('attribute = "%s"' % x, x) for x in custom if x not in used])
                used.add(nm)
                fields.append((c, nm, by_type[t]))
        else:
            fields, used = [], set()
            while len(fields) < m:
                if rnd.random() < 0.5:
                    c, nm, t = rnd.choice(names)
                    ty = by_type[t] if rnd.random() < 0.4 else rnd.choice(list(PRIMS))
                    a = "BUILTIN_" + c
                else:
                    nm = rnd.choice(custom)
                    a, ty = 'attribute = "%s"' % nm, rnd.choice(list(PRIMS))
                if nm not in used:
                    used.add(nm)
                    fields.append((a, nm, ty))
        # (what is written, packing or -1 where the order of the fields is the compiler's choice)
        p = rnd.choice([2, 4, 8])
        reprs = [("#[repr(C)]", 0), ("#[repr(C)]", 0), ("#[repr(C, packed)]", 1), ("#[repr(packed, C)]", 1), ("#[repr(packed)]", -1), ("#[repr(packed(%d))]" % p, -1),
                 ("#[repr(C, packed(%d))]" % p, p), ("#[repr(packed(%d), C)]" % p, p), ("#[repr(C, packed(1))]", 1), ("#[repr(C)]\n#[repr(packed(%d))]" % p, p),
                 ("#[repr(packed)]\n#[repr(C)]", 1), ("#[repr(C, align(%d))]" % rnd.choice([4, 8, 16]), -2), ("#[allow(dead_code)]\n/// documented\n#[repr(C)]", 0)]
        rep, packing = ("#[repr(%s)]" % case["rep"], case["p"]) if case else rnd.choice(reprs)
        tup = rnd.random() < 0.15
        acc = [str(i) if tup else "f%d" % i for i in range(len(fields))]
        vis = rnd.choice(["", "pub ", "pub(crate) "])
        body = ", ".join("#[pasture(%s)] %s%s%s" % (a, vis, "" if tup else acc[i] + ": ", ty) for i, (a, nm, ty) in enumerate(fields))
        out.append("#[derive(Copy, Clone, PointType, bytemuck::AnyBitPattern)]\n%s\n%sstruct S%d%s\nunsafe impl bytemuck::NoUninit for S%d {}\n"
                   % (rep, vis, k, "(%s);" % body if tup else " { %s }" % body, k))
        mk = ", ".join("%s: mk::<%s>(r)" % (acc[i], ty) for i, (a, nm, ty) in enumerate(fields))
        defs = ", ".join('attr("%s", D::%s)' % (nm, PRIMS[ty]) for a, nm, ty in fields)
        offs = ", ".join("std::mem::offset_of!(S%d, %s)" % (k, x) for x in acc)
        get = ", ".join("{ let v = p.%s; bytemuck::bytes_of(&v).to_vec() }" % x for x in acc)
        view = ", ".join('bytes(b.view_attribute::<%s>(&attr("%s", D::%s)).into_iter())' % (ty, nm, PRIMS[ty]) for a, nm, ty in fields)
        out.append("impl Probe for S%d {\n fn make(r: &mut StdRng) -> Self { let _ = &r; S%d { %s } }\n fn defs() -> Vec<PointAttributeDefinition> { vec![%s] }\n"
                   " fn offsets() -> Vec<usize> { vec![%s] }\n fn fields(p: &Self) -> Vec<Vec<u8>> { vec![%s] }\n"
                   " fn columns<'a, B: BorrowedBuffer<'a>>(b: &'a B) -> Vec<Vec<Vec<u8>>> { vec![%s] }\n}\n" % (k, k, mk, defs, offs, get, view))
        calls.append("probe::<S%d>(tr, r, %d, %r);" % (k, packing, rep.replace("\n", " ").replace("'", "")))
    # two fields with one name
    for k, (a, b) in enumerate([("BUILTIN_INTENSITY", "BUILTIN_INTENSITY"), ('attribute = "x"', 'attribute = "x"'), ("BUILTIN_NIR", 'attribute = "NIR"')]):
        out.append("#[derive(Copy, Clone, PointType, bytemuck::AnyBitPattern, bytemuck::NoUninit)]\n#[repr(C)]\nstruct Twice%d { #[pasture(%s)] a: u16, #[pasture(BUILTIN_POINT_SOURCE_ID)] b: u16, #[pasture(%s)] c: u16 }\n" % (k, a, b))
        calls.append('tr.scenario(); tr.emit(json!({"e": "new", "k": 0, "lays": []})); tr.emit(json!({"e": "duplicate", "ok": guard(Twice%d::layout).is_some()}));' % k)
    for m in maybe(ctx, rnd):
        calls.append('tr.scenario(); tr.emit(json!({"e": "new", "k": 0, "lays": []})); tr.emit(serde_json::from_str(r##"%s"##).unwrap());' % json.dumps(m))
    src = "\n".join(out) + "\nfn all(tr: &mut Trace, r: &mut StdRng) {\n" + "\n".join(calls).replace("'#", '"#').replace("]')", ']")') + "\n}\n"
    d = os.path.join(ctx["work"], "derive.rs")
    with open(d, "w") as f:
        f.write(src)
    return {"PV_DERIVE": d}


def maybe(ctx, rnd):
    """Structs that the derive macro has to refuse, and some that it has to accept; which ones it did accept."""
    all_ = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"]
    types = ["bool", "char", "usize", "isize", "u128", "i128", "()", "[u8; 3]", "(u8, u8)", "*const u8", "std::num::NonZeroU8", "Vector2<u8>", "Vector2<f64>", "Matrix3<f32>", "Point3<f64>", "Option<u8>"]
    types += ["Vector%d<%s>" % (n, t) for n in (3, 4) for t in all_] + all_
    cs = [("#[repr(C)]", "struct", t, "#[pasture(BUILTIN_INTENSITY)]", "") for t in types]
    cs += [(r, "struct", t, "#[pasture(BUILTIN_INTENSITY)]", "") for t in ("u16", "Vector3<f64>") for r in
           ("", "#[repr(Rust)]", "#[repr(align(8))]", "#[repr(transparent)]", "#[allow(unused)]", "#[repr(packed)]", "#[repr(C, packed)]", "#[repr(packed(2))]", "#[repr(C, align(16))]", "#[repr(align(16), C)]")]
    cs += [("#[repr(C)]", "struct", "u16", a, "") for a in ("", "#[pasture]", "#[pasture()]", "#[pasture(BUILTIN_NOTHING)]", "#[pasture(attribute = 5)]", "#[pasture(name = \"a\")]", "#[pasture(INTENSITY)]", "#[pasture(attribute = \"a\")]")]
    cs += [("#[repr(C)]", k, "u16", "#[pasture(BUILTIN_INTENSITY)]", g) for k, g in (("struct", "<T: 'static>"), ("struct", "<'a>"), ("struct", "<const N: usize>"), ("union", ""), ("enum", ""))]
    text, at, out = [], {}, []
    for k, (rep, kind, ty, attr, gen) in enumerate(cs):
        extra = ", b: std::marker::PhantomData<T>" if "T:" in gen else ", b: std::marker::PhantomData<&'a u8>" if "'a" in gen else ""
        body = "A = 1" if kind == "enum" else "%s a: %s%s" % (attr, ty, extra)
        args = {"": "", "<T: 'static>": "<T>", "<'a>": "<'a>", "<const N: usize>": "<N>"}[gen]
        one = "#[derive(PointType)] %s %s M%d%s { %s }" % (rep, kind, k, gen, body)
        one += "\nimpl%s Copy for M%d%s {} impl%s Clone for M%d%s { fn clone(&self) -> Self { *self } }" % (gen, k, args, gen, k, args)
        one += " unsafe impl%s bytemuck::Zeroable for M%d%s {} unsafe impl%s bytemuck::AnyBitPattern for M%d%s {} unsafe impl%s bytemuck::NoUninit for M%d%s {}" % (gen, k, args, gen, k, args, gen, k, args)
        for line in one.split("\n"):
            text.append(line)
            at[len(text)] = k
    f = os.path.join(ctx["work"], "maybe.rs")
    open(f, "w").write("\n".join(text) + "\n")
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--message-format=json", "--example", "maybe"]
    rc, o, err = ctx["sh"](cmd, 600, dict(ctx["cargo_env"](), PV_MAYBE=f), os.path.join(ctx["here"], "derive"))
    refused = set()
    for line in o.split("\n"):
        m = json.loads(line) if line.startswith("{") else {}
        m = m.get("message") if m.get("reason") == "compiler-message" else None
        if m and m.get("level", "").startswith("error"):
            for sp in m["spans"]:
                while sp and not sp["file_name"].endswith("maybe.rs") and sp.get("expansion"):
                    sp = sp["expansion"]["span"]
                if sp["file_name"] == f and sp["line_start"] in at:
                    refused.add(at[sp["line_start"]])
    if not refused and rc != 0:
        raise ctx["ToolError"]("no verdict on structs (rc %s)\n%s" % (rc, err[-3000:]))
    for k, (rep, kind, ty, attr, gen) in enumerate(cs):
        out.append({"e": "accepted", "ok": k not in refused, "type": ty, "kind": kind, "generic": gen != "", "repr": re.findall(r"C|packed", rep), "attribute": re.sub(r"[^\w=\" ()]", "", attr)})
    return out


def cases(ctx, spec):
    """Has TLC enumerate behaviours of the specification; returns the file with them."""
    out = os.path.join(ctx["work"], "cases.ndjson")
    rc, o = ctx["tlc"](spec["module"], spec["module"] + ".cfg", ctx["work"], 600, {"PROP": ctx["prop"], "TIER": ctx["tier"], "OUT": out, "SEED": str(ctx["seed"])}, heap="4g")
    if rc != 0 or not os.path.exists(out):
        raise ctx["ToolError"]("no cases from %s (rc %s)\n%s" % (spec["module"], rc, o[-3000:]))
    ctx["cov"]["generated_cases"] = sum(1 for _ in open(out))
    return out
