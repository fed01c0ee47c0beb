"""Compile-fail witnesses: each is a function body with a place @@ where the misuse, or its legal twin, stands.
w(name, codes, header, body, bad, good): the misuse must fail with one of the codes and no other error, the
twin must compile."""
W = []
B = "E0499 E0502 E0505 E0506 E0382 E0597 E0515 E0716 E0713 E0503 E0521".split()


def w(name, codes, sig, body, bad, good):
    W.append((name, codes.split() if isinstance(codes, str) else codes, sig, body, bad, good))


# ---- builders
for T, new in (("ObjectBuilder", "ObjectBuilder::try_new(1, false).unwrap()"), ("ObjectRefBuilder", "ObjectRefBuilder::try_new(&mut v, 1, false).unwrap()")):
    for kind, push in (("object", 'push_object("k", 1, true)'), ("array", 'push_array("k", 1)')):
        inner = ('push_null("x")' if kind == "object" else "push_null()")
        pre = "let mut v: Vec<u8> = Vec::new(); let _ = &mut v; let mut b = %s; let mut i = b.%s.unwrap();" % (new, push)
        for act, code in (("push_null", 'b.push_null("y").unwrap();'), ("push_string", 'b.push_string("y", "z").unwrap();'), ("push_bool", 'b.push_bool("y", true).unwrap();'),
                          ("push_number", 'b.push_number("y", Number::from(1)).unwrap();'), ("push_object", 'b.push_object("y", 0, true).unwrap();'), ("push_array", 'b.push_array("y", 0).unwrap();'),
                          ("finish", "b.finish().unwrap();")):
            w("%s.%s.%s-before-inner-finish" % (T, push.split("(")[0], act), B, "()", pre + " @@ i.%s.unwrap(); i.finish().unwrap();" % inner, code, "")
        w("%s.%s.inner-outlives" % (T, push.split("(")[0]), B, "()", "let mut v: Vec<u8> = Vec::new(); let _ = &mut v; let mut b = %s; let i = b.%s.unwrap(); @@ drop(i);" % (new, push), "drop(b);", "")
        w("%s.%s.dropped-then-result" % (T, push.split("(")[0]), B, "()", pre + " let y: &Yason = i.finish().unwrap(); @@ let _ = y.data_type();", "b.finish().unwrap();", "")
        w("%s.%s.result-then-push" % (T, push.split("(")[0]), B, "()", pre + " let y: &Yason = i.finish().unwrap(); @@ let _ = y.data_type();", 'b.push_null("z").unwrap();', "")
for T, new in (("ArrayBuilder", "ArrayBuilder::try_new(1).unwrap()"), ("ArrayRefBuilder", "ArrayRefBuilder::try_new(&mut v, 1).unwrap()")):
    for kind, push in (("object", "push_object(1, true)"), ("array", "push_array(1)")):
        inner = ('push_null("x")' if kind == "object" else "push_null()")
        pre = "let mut v: Vec<u8> = Vec::new(); let _ = &mut v; let mut b = %s; let mut i = b.%s.unwrap();" % (new, push)
        for act, code in (("push_null", "b.push_null().unwrap();"), ("push_string", 'b.push_string("z").unwrap();'), ("push_bool", "b.push_bool(true).unwrap();"),
                          ("push_number", "b.push_number(Number::from(1)).unwrap();"), ("push_object", "b.push_object(0, true).unwrap();"), ("push_array", "b.push_array(0).unwrap();"),
                          ("finish", "b.finish().unwrap();")):
            w("%s.%s.%s-before-inner-finish" % (T, push.split("(")[0], act), B, "()", pre + " @@ i.%s.unwrap(); i.finish().unwrap();" % inner, code, "")
        w("%s.%s.inner-outlives" % (T, push.split("(")[0]), B, "()", "let mut v: Vec<u8> = Vec::new(); let _ = &mut v; let mut b = %s; let i = b.%s.unwrap(); @@ drop(i);" % (new, push), "drop(b);", "")
        w("%s.%s.dropped-then-result" % (T, push.split("(")[0]), B, "()", pre + " let y: &Yason = i.finish().unwrap(); @@ let _ = y.data_type();", "b.finish().unwrap();", "")
        w("%s.%s.result-then-push" % (T, push.split("(")[0]), B, "()", pre + " let y: &Yason = i.finish().unwrap(); @@ let _ = y.data_type();", "b.push_null().unwrap();", "")
for T, new, null in (("ObjectBuilder", "ObjectBuilder::try_new(1, false).unwrap()", 'push_null("k")'), ("ObjectRefBuilder", "ObjectRefBuilder::try_new(&mut v, 1, false).unwrap()", 'push_null("k")'),
                     ("ArrayBuilder", "ArrayBuilder::try_new(1).unwrap()", "push_null()"), ("ArrayRefBuilder", "ArrayRefBuilder::try_new(&mut v, 1).unwrap()", "push_null()")):
    pre = "let mut v: Vec<u8> = Vec::new(); let _ = &mut v; let mut b = %s; b.%s.unwrap(); " % (new, null)
    w(T + ".push-after-finish", "E0382", "()", pre + "b.finish().unwrap(); @@", "b.%s.unwrap();" % null, "")
    w(T + ".finish-twice", "E0382", "()", pre + "b.finish().unwrap(); @@", "b.finish().unwrap();", "")
    if "Ref" in T:
        for act, code in (("push", "v.push(1);"), ("clear", "v.clear();"), ("drop", "drop(v);"), ("read", "let _ = v.len();")):
            w("%s.buffer-%s-while-building" % (T, act), B, "()", "let mut v: Vec<u8> = Vec::new(); let mut b = %s; @@ b.%s.unwrap();" % (new, null), code, "")
            if act != "read":
                w("%s.buffer-%s-while-document" % (T, act), B, "()", "let mut v: Vec<u8> = Vec::new(); let mut b = %s; b.%s.unwrap(); let y = b.finish().unwrap(); @@ let _ = y.data_type();" % (new, null), code, "")
        w(T + ".second-builder-on-buffer", B, "()", "let mut v: Vec<u8> = Vec::new(); let mut b = %s; @@ b.%s.unwrap();" % (new, null), "let mut c = %s; c.%s.unwrap();" % (new, null), "")

# ---- documents in buffers handed over
for name, call in (("Scalar::string_with_vec", 'Scalar::string_with_vec("a", &mut v)'), ("Scalar::number_with_vec", "Scalar::number_with_vec(Number::from(1), &mut v)"),
                   ("Scalar::bool_with_vec", "Scalar::bool_with_vec(true, &mut v)"), ("Scalar::null_with_vec", "Scalar::null_with_vec(&mut v)"), ("Yason::parse_to", 'Yason::parse_to(&mut v, "1")')):
    for act, code in (("push", "v.push(1);"), ("clear", "v.clear();"), ("drop", "drop(v);"), ("reuse", "let _ = Scalar::null_with_vec(&mut v);")):
        w("%s.buffer-%s-while-document" % (name, act), B, "()", "let mut v: Vec<u8> = Vec::new(); let y = %s.unwrap(); @@ let _ = y.data_type();" % call, code, "")
for act, code in (("push", "v.push(1);"), ("clear", "v.clear();"), ("drop", "drop(v);")):
    w("Value::try_to_yason.buffer-%s" % act, B, "(d: &Yason)", "let mut v: Vec<u8> = Vec::new(); let x = Value::try_from(d).unwrap(); let y = x.try_to_yason(&mut v).unwrap(); @@ let _ = y.data_type();", code, "")
w("Value::try_to_yason.document-drop", B, "()", "let d = Scalar::null().unwrap(); let mut v: Vec<u8> = Vec::new(); let x = Value::try_from(&*d).unwrap(); let y = x.try_to_yason(&mut v).unwrap(); @@ let _ = y.data_type();", "drop(d);", "")
w("Yason::new_unchecked.bytes-drop", B, "()", "let v: Vec<u8> = vec![6]; let y = unsafe { Yason::new_unchecked(&v) }; @@ let _ = y.data_type();", "drop(v);", "")
w("Yason::new_unchecked.bytes-change", B, "()", "let mut v: Vec<u8> = vec![6]; let _ = &mut v; let y = unsafe { Yason::new_unchecked(&v) }; @@ let _ = y.data_type();", "v[0] = 1;", "")

# ---- everything borrowed from a document
VIEWS = [
    ("deref", "let x: &Yason = &d;", "let _ = x.data_type();"),
    ("as_ref", "let x: &Yason = d.as_ref();", "let _ = x.data_type();"),
    ("borrow", "let x: &Yason = std::borrow::Borrow::borrow(&d);", "let _ = x.data_type();"),
    ("as_bytes", "let x: &[u8] = d.as_bytes();", "let _ = x.len();"),
    ("object", "let x: Object = d.object().unwrap();", "let _ = x.len();"),
    ("array", "let x: Array = d.array().unwrap();", "let _ = x.len();"),
    ("string", "let x: &str = d.string().unwrap();", "let _ = x.len();"),
    ("format", "let x = d.format(true);", "let _ = x.to_string();"),
    ("Value", "let x = Value::try_from(&*d).unwrap();", "let _ = x.data_type();"),
    ("object.yason", "let o = d.object().unwrap(); let x = o.yason();", "let _ = x.data_type();"),
    ("array.yason", "let o = d.array().unwrap(); let x = o.yason();", "let _ = x.data_type();"),
]
for name, call, use in (("object.iter", "object().unwrap().iter()", "x.next();"), ("object.key_iter", "object().unwrap().key_iter()", "x.next();"), ("object.value_iter", "object().unwrap().value_iter()", "x.next();"),
                        ("array.iter", "array().unwrap().iter()", "x.next();")):
    VIEWS.append((name, "let mut x = d.%s.unwrap();" % call, use))
for name, call, use in (("object.get", 'object().unwrap().get("k").unwrap()', "drop(x);"), ("object.object", 'object().unwrap().object("k").unwrap()', "drop(x);"), ("object.array", 'object().unwrap().array("k").unwrap()', "drop(x);"),
                        ("object.string", 'object().unwrap().string("k").unwrap()', "let _ = x.map(|s| s.len());"),
                        ("array.get", "array().unwrap().get(0).unwrap()", "drop(x);"), ("array.object", "array().unwrap().object(0).unwrap()", "let _ = x.len();"), ("array.array", "array().unwrap().array(0).unwrap()", "let _ = x.len();"),
                        ("array.string", "array().unwrap().string(0).unwrap()", "let _ = x.len();"),
                        ("object.iter.next", "object().unwrap().iter().unwrap().next().unwrap().unwrap()", "let _ = x.0.len();"), ("object.key_iter.next", "object().unwrap().key_iter().unwrap().next().unwrap().unwrap()", "let _ = x.len();"),
                        ("object.value_iter.next", "object().unwrap().value_iter().unwrap().next().unwrap().unwrap()", "let _ = x.data_type();"), ("array.iter.next", "array().unwrap().iter().unwrap().next().unwrap().unwrap()", "let _ = x.data_type();")):
    VIEWS.append((name, "let x = d.%s;" % call, use))
for name, make, use in VIEWS:
    for act, code in (("drop", "drop(d);"), ("overwrite", "d = Scalar::null().unwrap();"), ("clone_from_yason", "d.clone_from_yason(e);")):
        w("view.%s.%s" % (name, act), B, "(e: &Yason)", "let mut d = Scalar::null().unwrap(); let _ = (&mut d, e); %s @@ %s" % (make, use), code, "")
for name, make, use in VIEWS:
    if name in ("object.yason", "array.yason"):
        continue
    w("view.%s.escapes" % name, B, "()", "let s = Scalar::null().unwrap(); let mut all = Vec::new(); for _ in 0..2 { let d = Scalar::null().unwrap(); let d = @@; %s all.push(x); } drop(all);" % make.replace("&*d", "&**d").replace("(&d)", "(d)"), "&d", "{ let _ = &d; &s }")

# ---- queries
for q, bufs in (("none", "None, None"), ("values", "Some(&mut vs), None"), ("bytes", "None, Some(&mut bs)"), ("both", "Some(&mut vs), Some(&mut bs)")):
    pre = "let d = Scalar::null().unwrap(); let mut vs: Vec<Value<'_>> = Vec::new(); let mut bs: Vec<u8> = Vec::new(); let _ = (&mut vs, &mut bs); let r = p.query(&d, true, %s).unwrap(); " % bufs
    w("query.%s.document-drop" % q, B, "(p: &PathExpression)", pre + "@@ drop(r);", "drop(d);", "")
    if q in ("values", "both"):
        w("query.%s.values-clear" % q, B, "(p: &PathExpression)", pre + "@@ drop(r);", "vs.clear();", "")
        w("query.%s.values-drop" % q, B, "(p: &PathExpression)", pre + "@@ drop(r);", "drop(vs);", "")
    if q in ("bytes", "both"):
        w("query.%s.bytes-clear" % q, B, "(p: &PathExpression)", pre + "@@ drop(r);", "bs.clear();", "")
        w("query.%s.bytes-drop" % q, B, "(p: &PathExpression)", pre + "@@ drop(r);", "drop(bs);", "")
w("query.values-outlive-document", B, "(p: &PathExpression)", "let d = Scalar::null().unwrap(); let mut vs: Vec<Value<'_>> = Vec::new(); let _ = p.query(&d, true, Some(&mut vs), None); @@ drop(vs);", "drop(d);", "")
w("query.result-document-drop", B, "(p: &PathExpression)", "let d = Scalar::null().unwrap(); let y = match p.query(&d, false, None, None).unwrap() { QueriedValue::Value(v) => v, _ => Value::Null }; @@ drop(y);", "drop(d);", "")

# ---- no mutable access
MUTS = "E0596 E0594 E0599 E0277 E0308 E0282 E0283"
w("mutable.deref", MUTS, "(d: &mut YasonBuf)", "let _y: @@ d;", "&mut Yason =", "&Yason =")
w("mutable.as_mut", MUTS, "(d: &mut YasonBuf)", "@@", "let _y: &mut Yason = d.as_mut();", "let _y: &Yason = (*d).as_ref();")
w("mutable.as_mut-bytes", MUTS, "(d: &mut YasonBuf)", "@@", "let _y: &mut [u8] = d.as_mut();", "let _y: &[u8] = d.as_bytes();")
w("mutable.as_mut-vec", MUTS, "(d: &mut YasonBuf)", "@@", "let _y: &mut Vec<u8> = d.as_mut();", "let _y: &[u8] = d.as_bytes();")
w("mutable.borrow_mut", MUTS, "(d: &mut YasonBuf)", "@@", "let _y: &mut Yason = std::borrow::BorrowMut::borrow_mut(d);", "let _y: &Yason = std::borrow::Borrow::borrow(&*d);")
w("mutable.as_bytes", MUTS, "(d: &mut YasonBuf)", "@@", "d.as_bytes()[0] = 1;", "let _ = d.as_bytes()[0];")
w("mutable.index", "E0608 E0594 E0596 E0277", "(d: &mut YasonBuf)", "@@", "d[0] = 1;", "let _ = d.as_bytes()[0];")
w("mutable.bytes-slice", MUTS, "(d: &mut YasonBuf)", "let _y: @@ d.as_bytes();", "&mut [u8] =", "&[u8] =")

for t in ("DerefMut", "AsMut<[u8]>", "AsMut<Vec<u8>>", "AsMut<Yason>", "BorrowMut<Yason>", "BorrowMut<[u8]>", "BorrowMut<Vec<u8>>", "IndexMut<usize>", "IndexMut<std::ops::Range<usize>>", "IndexMut<std::ops::RangeFull>", "io::Write", "Extend<u8>"):
    tr = {"DerefMut": "std::ops::DerefMut", "io::Write": "std::io::Write", "Extend<u8>": "Extend<u8>"}.get(t) or ("std::borrow::" if t.startswith("Borrow") else "std::ops::" if t.startswith("Index") else "") + t
    w("mutable.YasonBuf: %s" % t, "E0277", "()", "fn need<T: ?Sized + %s>() {} @@" % tr, "need::<YasonBuf>();", "")
    if t not in ("io::Write", "Extend<u8>", "BorrowMut<Yason>"):
        w("mutable.Yason: %s" % t, "E0277", "()", "fn need<T: ?Sized + %s>() {} @@" % tr, "need::<Yason>();", "")

# ---- no safe construction from bytes
ACC = "E0451 E0423 E0133 E0277 E0308 E0599 E0603 E0616 E0624 E0433 E0432 E0609 E0425 E0061 E0560 E0282 E0283".split()
w("construct.YasonBuf-literal", "E0451", "(v: Vec<u8>)", "@@", "let _ = YasonBuf { bytes: v };", "let _ = unsafe { YasonBuf::new_unchecked(v) };")
w("construct.YasonBuf-unchecked", "E0133", "(v: Vec<u8>)", "let _ = @@;", "YasonBuf::new_unchecked(v)", "unsafe { YasonBuf::new_unchecked(v) }")
w("construct.Yason-unchecked", "E0133", "(v: &[u8])", "let _ = @@;", "Yason::new_unchecked(v)", "unsafe { Yason::new_unchecked(v) }")
w("construct.Object-unchecked", "E0133", "(y: &Yason)", "let _ = @@;", "Object::new_unchecked(y)", "unsafe { Object::new_unchecked(y) }")
w("construct.Array-unchecked", "E0133", "(y: &Yason)", "let _ = @@;", "Array::new_unchecked(y)", "unsafe { Array::new_unchecked(y) }")
w("construct.Array-get-unchecked", "E0133", "(a: Array<'_>)", "let _ = @@;", "a.get_unchecked(0)", "unsafe { a.get_unchecked(0) }")
w("construct.Object-literal", "E0423 E0451", "(y: &Yason)", "let _ = @@;", "Object(y)", "y.object()")
w("construct.Array-literal", "E0423 E0451", "(y: &Yason)", "let _ = @@;", "Array(y)", "y.array()")
w("construct.Object-struct-literal", "E0451", "(y: &Yason)", "let _ = @@;", "Object { 0: y }", "y.object()")
w("construct.Array-struct-literal", "E0451", "(y: &Yason)", "let _ = @@;", "Array { 0: y }", "y.array()")
w("construct.PathExpression-literal", "E0423 E0451", "()", "let _ = @@;", "PathExpression(Vec::new())", '"$".parse::<PathExpression>()')
for ty, need in (("YasonBuf", ("From<Vec<u8>>", "From<&'static [u8]>", "From<Box<[u8]>>", "From<&'static str>", "From<String>", "FromIterator<u8>", "Default", "std::str::FromStr")), ("&'static Yason", ("From<&'static [u8]>", "From<&'static str>", "From<&'static Vec<u8>>", "Default")),
                 ("Object<'static>", ("From<&'static [u8]>", "From<&'static Yason>", "Default")), ("Array<'static>", ("From<&'static [u8]>", "From<&'static Yason>", "Default"))):
    for n in need:
        if n in ("std::str::FromStr", "From<&'static str>", "From<String>"):
            continue                    # may parse JSON
        w("construct.%s: %s" % (ty, n), "E0277", "()", "fn need<T: %s>() {} @@" % n, "need::<%s>();" % ty, "")
for ty, src in (("YasonBuf", "Vec<u8>"), ("YasonBuf", "&'static [u8]"), ("&'static Yason", "&'static [u8]"), ("Object<'static>", "&'static [u8]"), ("Array<'static>", "&'static [u8]")):
    w("construct.%s: TryFrom<%s>" % (ty, src), "E0277", "()", "fn need<T: TryFrom<%s>>() {} @@" % src, "need::<%s>();" % ty, "")
for src in ("[u8]", "Vec<u8>", "str", "String"):
    w("construct.%s: AsRef<Yason>" % src, "E0277", "()", "fn need<T: ?Sized + AsRef<Yason>>() {} @@", "need::<%s>();" % src, "need::<YasonBuf>();")
    w("construct.%s: Borrow<Yason>" % src, "E0277", "()", "fn need<T: ?Sized + std::borrow::Borrow<Yason>>() {} @@", "need::<%s>();" % src, "need::<YasonBuf>();")

# ---- internals
for name, sig, bad, good in (("YasonBuf.bytes", "(d: YasonBuf)", "d.bytes", "d.as_bytes()"), ("Yason.bytes", "(d: &Yason)", "&d.bytes", "d.as_bytes()"), ("Object.0", "(o: Object<'_>)", "o.0", "o.yason()"), ("Array.0", "(o: Array<'_>)", "o.0", "o.yason()"),
                             ("ArrayIter.index", "(mut o: ArrayIter<'_>)", "o.index", "o.next()"), ("ArrayIter.len", "(mut o: ArrayIter<'_>)", "o.len", "o.next()"), ("ArrayIter.array", "(mut o: ArrayIter<'_>)", "o.array", "o.next()"),
                             ("ObjectIter.index", "(mut o: ObjectIter<'_>)", "o.index", "o.next()"), ("KeyIter.inner", "(mut o: KeyIter<'_>)", "o.inner", "o.next()"), ("ValueIter.inner", "(mut o: ValueIter<'_>)", "o.inner", "o.next()"),
                             ("ObjectBuilder.0", "(b: ObjectBuilder<'_>)", "b.0", "b.finish()"), ("ArrayBuilder.0", "(b: ArrayBuilder<'_>)", "b.0", "b.finish()"), ("ObjectRefBuilder.0", "(b: ObjectRefBuilder<'_>)", "b.0", "b.finish()"),
                             ("ArrayRefBuilder.0", "(b: ArrayRefBuilder<'_>)", "b.0", "b.finish()"), ("PathExpression.0", "(p: &PathExpression, y: &Yason)", "&p.0", "p.exists(y)")):
    w("internals." + name, "E0616 E0609 E0610", sig, "let _ = @@;", bad, good)
for name, sig, bad, good in (("Yason.slice", "(d: &Yason)", "d.slice(0, 1)", "d.as_bytes()"), ("Yason.read_u32", "(d: &Yason)", "d.read_u32(0)", "d.as_bytes()"), ("Yason.string_unchecked", "(d: &Yason)", "unsafe { d.string_unchecked() }", "d.string()"),
                             ("Array.lazy_iter", "(a: &Array<'_>)", "a.lazy_iter()", "a.iter()"), ("Array.lazy_get_unchecked", "(a: &Array<'_>)", "unsafe { a.lazy_get_unchecked(0) }", "a.get(0)"), ("Array.read_value_entry", "(a: &Array<'_>)", "a.read_value(0)", "a.get(0)"),
                             ("Object.lazy_iter", "(a: &Object<'_>)", "a.lazy_iter()", "a.iter()"), ("Object.nth_key_offset", "(a: &Object<'_>)", "unsafe { a.nth_key_offset(0) }", "a.len()"),
                             ("ArrayBuilder.push_object_or_array", "(a: &mut ArrayRefBuilder<'_>, y: &Yason)", "unsafe { a.push_object_or_array(y, DataType::Object) }", "{ let _ = y; a.push_null() }"),
                             ("PathExpression.new", "()", "PathExpression::new(Vec::new())", '"$".parse::<PathExpression>()'), ("PathExpression.steps", "(p: &PathExpression, y: &Yason)", "{ let _ = y; p.steps() }", "p.exists(y)")):
    w("internals." + name, "E0624 E0599 E0603", sig, "let _ = @@;", bad, good)
for name, path in (("vec::VecExt", "yason::vec::VecExt"), ("binary", "yason::binary"), ("LazyValue", "yason::LazyValue"), ("yason::LazyValue", "yason::yason::LazyValue"), ("builder::InnerObjectBuilder", "yason::builder::object::InnerObjectBuilder"),
                   ("path::parse::Step", "yason::path::parse::Step"), ("Selector", "yason::path::query::Selector")):
    w("internals.path.%s" % name, "E0603 E0432 E0433", "()", "@@", "use %s as _;" % path, "")
