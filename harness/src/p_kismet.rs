//! Blueprint bytecode: expressions are built as library values while an
//! independent encoder writes the bytes and counts the in-memory size the
//! engine would compute; parser, writer and size are compared with it.
use crate::arch::*;
use crate::core::*;
use ordered_float::OrderedFloat as F;
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::types::vector::{Transform, Vector, Vector4};
use unreal_asset_base::types::{FName, PackageIndex};
use unreal_asset_kismet::EExprToken as T;
use unreal_asset_kismet::*;

pub struct K<'a> {
    pub cf: &'a Cfg,
    pub out: Vec<u8>,
    /// size of the script in memory
    pub mem: usize,
    pub budget: i32,
    pub seen: Vec<u8>,
    /// false when an expression occurs whose size in memory is not specified
    pub mem_known: bool,
}
macro_rules! x {
    ($n:ident $(, $f:ident : $v:expr)* $(,)?) => { $n { token: T::$n $(, $f: $v)* }.into() };
}
const LEAVES: &[u8] = &[
    0x00, 0x01, 0x02, 0x06, 0x0B, 0x15, 0x17, 0x1D, 0x1E, 0x1F, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x2A, 0x2B,
    0x2C, 0x2D, 0x33, 0x34, 0x35, 0x36, 0x37, 0x48, 0x4A, 0x4B, 0x4C, 0x4D, 0x50, 0x53, 0x5A, 0x5B, 0x5E, 0x6A, 0x6C,
];
const INNER: &[u8] = &[
    0x04, 0x07, 0x09, 0x0F, 0x12, 0x13, 0x14, 0x18, 0x19, 0x1A, 0x1B, 0x1C, 0x29, 0x2E, 0x2F, 0x31, 0x38, 0x39, 0x3B, 0x3D, 0x3F,
    0x42, 0x43, 0x44, 0x45, 0x46, 0x4E, 0x4F, 0x51, 0x52, 0x54, 0x55, 0x5C, 0x5D, 0x5F, 0x60, 0x61, 0x62, 0x63, 0x64, 0x65, 0x67,
    0x68, 0x69, 0x6B, 0x6D,
];
fn num32(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => r.below(4) as u32,
        1 => u32::MAX - r.below(3) as u32,
        2 => 1u32 << r.below(32),
        _ => r.u64() as u32,
    }
}
impl<'a> K<'a> {
    pub fn new(cf: &'a Cfg, budget: i32) -> K<'a> {
        K { cf, out: vec![], mem: 0, budget, seen: vec![], mem_known: true }
    }
    fn put(&mut self, b: &[u8], mem: usize) {
        self.out.extend_from_slice(b);
        self.mem += mem;
    }
    fn lwc(&self) -> bool {
        self.cf.ov5 as i32 >= ObjectVersionUE5::LARGE_WORLD_COORDINATES as i32
    }
    fn u(&mut self, r: &mut Rng) -> u32 {
        let v = num32(r);
        self.put(&v.to_le_bytes(), 4);
        v
    }
    fn h(&mut self, r: &mut Rng) -> u16 {
        let v = num32(r) as u16;
        self.put(&v.to_le_bytes(), 2);
        v
    }
    fn c(&mut self, r: &mut Rng) -> u8 {
        let v = r.u64() as u8;
        self.put(&[v], 1);
        v
    }
    fn q(&mut self, r: &mut Rng) -> u64 {
        let v = if r.bool() { r.u64() } else { 1u64 << r.below(64) };
        self.put(&v.to_le_bytes(), 8);
        v
    }
    /// object reference: index in the file, pointer in memory
    fn o(&mut self, r: &mut Rng) -> PackageIndex {
        let v = if r.chance(1, 3) { num32(r) as i32 } else { r.below(9) as i32 - 4 };
        self.put(&v.to_le_bytes(), 8);
        PackageIndex::new(v)
    }
    fn fname(&mut self, r: &mut Rng) -> (Vec<u8>, FName) {
        let n = self.cf.names.get_ref().get_name_map_index_list().len();
        let i = r.below(n) as i32;
        let num = if r.chance(1, 3) { num32(r) as i32 } else { 0 };
        let mut b = i.to_le_bytes().to_vec();
        b.extend(num.to_le_bytes());
        let f = self.cf.names.get_ref().create_fname(i, num);
        (b, f)
    }
    fn n(&mut self, r: &mut Rng) -> FName {
        let (b, f) = self.fname(r);
        self.put(&b, 12);
        f
    }
    fn f64s(&mut self, r: &mut Rng) -> F<f64> {
        // finite values only: conversions of NaN payloads are not specified
        if self.lwc() {
            let v = match r.below(4) {
                0 => 0.1f64 * r.below(1000) as f64,
                1 => -0.0,
                2 => f64::INFINITY,
                _ => (r.u64() as i64 as f64) * 1e-7,
            };
            self.put(&v.to_le_bytes(), 8);
            F(v)
        } else {
            let v = self.f32v(r);
            self.put(&v.to_le_bytes(), 4);
            F(v as f64)
        }
    }
    fn f32v(&mut self, r: &mut Rng) -> f32 {
        match r.below(5) {
            0 => 0.1 * r.below(1000) as f32,
            1 => -0.0,
            2 => f32::MIN_POSITIVE / 4.0,
            3 => f32::NEG_INFINITY,
            _ => (r.u64() as i32 as f32) * 1e-3,
        }
    }
    fn vec3(&mut self, r: &mut Rng) -> Vector<F<f64>> {
        let a = self.f64s(r);
        let b = self.f64s(r);
        let c = self.f64s(r);
        Vector::new(a, b, c)
    }
    /// property pointer: index or field path in the file, pointer in memory
    fn p(&mut self, r: &mut Rng) -> KismetPropertyPointer {
        if self.cf.ov as i32 >= ObjectVersion::VER_UE4_ADDED_PACKAGE_OWNER as i32 {
            let n = *r.pick(&[0usize, 1, 1, 1, 2, 3]);
            self.put(&(n as i32).to_le_bytes(), 0);
            let mut path = vec![];
            for _ in 0..n {
                let (b, f) = self.fname(r);
                self.put(&b, 0);
                path.push(f);
            }
            let o = self.o(r);
            KismetPropertyPointer::from_new(FieldPath::new(path, o))
        } else {
            let o = self.o(r);
            KismetPropertyPointer::from_old(o)
        }
    }
    fn b(&mut self, r: &mut Rng, d: usize) -> Box<KismetExpression> {
        Box::new(self.expr(r, d + 1))
    }
    fn many(&mut self, r: &mut Rng, d: usize, n: usize) -> Vec<KismetExpression> {
        (0..n).map(|_| self.expr(r, d + 1)).collect()
    }
    fn end(&mut self, t: u8) {
        self.put(&[t], 1);
        self.seen.push(t);
    }
    fn list(&mut self, r: &mut Rng, d: usize, end: u8) -> Vec<KismetExpression> {
        let n = r.below(4);
        let v = self.many(r, d, n);
        self.end(end);
        v
    }
    /// count, elements, end; `per` expressions count as one entry
    fn counted(&mut self, r: &mut Rng, d: usize, end: u8, per: usize) -> Vec<KismetExpression> {
        let n = r.below(4);
        self.put(&(n as i32).to_le_bytes(), 4);
        let v = self.many(r, d, n * per);
        self.end(end);
        v
    }
    pub fn expr(&mut self, r: &mut Rng, d: usize) -> KismetExpression {
        self.budget -= 1;
        let leaf = d > 8 || self.budget <= 0 || r.chance(2, 5);
        let t = if leaf { *r.pick(LEAVES) } else { *r.pick(INNER) };
        self.token(r, d, t)
    }
    pub fn token(&mut self, r: &mut Rng, d: usize, t: u8) -> KismetExpression {
        self.put(&[t], 1);
        self.seen.push(t);
        let s = self;
        match t {
            0x00 => x!(ExLocalVariable, variable: s.p(r)),
            0x01 => x!(ExInstanceVariable, variable: s.p(r)),
            0x02 => x!(ExDefaultVariable, variable: s.p(r)),
            0x04 => x!(ExReturn, return_expression: s.b(r, d)),
            0x06 => x!(ExJump, code_offset: s.u(r)),
            0x07 => x!(ExJumpIfNot, code_offset: s.u(r), boolean_expression: s.b(r, d)),
            0x09 => {
                let line_number = s.h(r);
                let debug_mode = r.bool();
                s.put(&[debug_mode as u8], 1);
                x!(ExAssert, line_number: line_number, debug_mode: debug_mode, assert_expression: s.b(r, d))
            }
            0x0B => x!(ExNothing),
            0x0F => x!(ExLet, value: s.p(r), variable: s.b(r, d), expression: s.b(r, d)),
            0x12 => x!(ExClassContext, object_expression: s.b(r, d), offset: s.u(r), r_value_pointer: s.p(r), context_expression: s.b(r, d)),
            0x13 => x!(ExMetaCast, class_ptr: s.o(r), target_expression: s.b(r, d)),
            0x14 => x!(ExLetBool, variable_expression: s.b(r, d), assignment_expression: s.b(r, d)),
            0x15 => x!(ExEndParmValue),
            0x17 => x!(ExSelf),
            0x18 => x!(ExSkip, code_offset: s.u(r), skip_expression: s.b(r, d)),
            0x19 => x!(ExContext, object_expression: s.b(r, d), offset: s.u(r), r_value_pointer: s.p(r), context_expression: s.b(r, d)),
            0x1A => x!(ExContextFailSilent, object_expression: s.b(r, d), offset: s.u(r), r_value_pointer: s.p(r), context_expression: s.b(r, d)),
            0x1B => x!(ExVirtualFunction, virtual_function_name: s.n(r), parameters: s.list(r, d, 0x16)),
            0x1C => x!(ExFinalFunction, stack_node: s.o(r), parameters: s.list(r, d, 0x16)),
            0x1D => x!(ExIntConst, value: s.u(r) as i32),
            0x1E => {
                let v = s.f32v(r);
                s.put(&v.to_le_bytes(), 4);
                x!(ExFloatConst, value: F(v))
            }
            0x1F => {
                let v: String = (0..r.below(12)).map(|_| (1 + r.below(127)) as u8 as char).collect();
                s.put(v.as_bytes(), v.len() + 1);
                s.put(&[0], 0);
                x!(ExStringConst, value: v)
            }
            0x20 => x!(ExObjectConst, value: s.o(r)),
            0x21 => x!(ExNameConst, value: s.n(r)),
            0x22 => x!(ExRotationConst, rotator: s.vec3(r)),
            0x23 => x!(ExVectorConst, value: s.vec3(r)),
            0x24 => x!(ExByteConst, value: s.c(r)),
            0x25 => x!(ExIntZero),
            0x26 => x!(ExIntOne),
            0x27 => x!(ExTrue),
            0x28 => x!(ExFalse),
            0x29 => {
                let ty = r.below(5) as u8;
                s.put(&[ty], 1);
                let mut t = FScriptText {
                    text_literal_type: EBlueprintTextLiteralType::try_from(ty).unwrap(),
                    localized_source: None,
                    localized_key: None,
                    localized_namespace: None,
                    invariant_literal_string: None,
                    literal_string: None,
                    string_table_asset: None,
                    string_table_id: None,
                    string_table_key: None,
                };
                match ty {
                    1 => {
                        t.localized_source = Some(s.expr(r, d + 1));
                        t.localized_key = Some(s.expr(r, d + 1));
                        t.localized_namespace = Some(s.expr(r, d + 1));
                    }
                    2 => t.invariant_literal_string = Some(s.expr(r, d + 1)),
                    3 => t.literal_string = Some(s.expr(r, d + 1)),
                    4 => {
                        t.string_table_asset = Some(s.o(r));
                        t.string_table_id = Some(s.expr(r, d + 1));
                        t.string_table_key = Some(s.expr(r, d + 1));
                    }
                    _ => {}
                }
                x!(ExTextConst, value: Box::new(t))
            }
            0x2A => x!(ExNoObject),
            0x2B => {
                let q = [s.f64s(r), s.f64s(r), s.f64s(r), s.f64s(r)];
                let tr = s.vec3(r);
                let sc = s.vec3(r);
                x!(ExTransformConst, value: Transform::new(Vector4::new(q[0], q[1], q[2], q[3]), tr, sc))
            }
            0x2C => x!(ExIntConstByte, value: s.c(r)),
            0x2D => x!(ExNoInterface),
            0x2E => x!(ExDynamicCast, class_ptr: s.o(r), target_expression: s.b(r, d)),
            0x2F => x!(ExStructConst, struct_value: s.o(r), struct_size: s.u(r) as i32, value: s.list(r, d, 0x30)),
            0x31 => {
                if s.cf.ov as i32 >= ObjectVersion::VER_UE4_CHANGE_SETARRAY_BYTECODE as i32 {
                    x!(ExSetArray, assigning_property: Some(s.b(r, d)), array_inner_prop: None, elements: s.list(r, d, 0x32))
                } else {
                    x!(ExSetArray, assigning_property: None, array_inner_prop: Some(s.o(r)), elements: s.list(r, d, 0x32))
                }
            }
            0x33 => x!(ExPropertyConst, property: s.p(r)),
            0x34 => {
                let v: String = (0..r.below(10)).filter_map(|_| char::from_u32(*r.pick(&[0x41, 0xff, 0x100, 0x3042, 0xfffd, 0x1f600, 0x7f, 0x2000]))).collect();
                let u: Vec<u16> = v.encode_utf16().chain([0]).collect();
                for c in &u {
                    s.put(&c.to_le_bytes(), 2);
                }
                x!(ExUnicodeStringConst, value: v)
            }
            0x35 => x!(ExInt64Const, value: s.q(r) as i64),
            0x36 => x!(ExUInt64Const, value: s.q(r)),
            0x37 => {
                let v = (r.u64() as i64 as f64) * 1e-3;
                s.put(&v.to_le_bytes(), 8);
                x!(ExDoubleConst, value: F(v))
            }
            0x38 => {
                let ct = if s.lwc() {
                    let v = r.below(0x13) as u8;
                    s.put(&[v], 1);
                    CastToken::New(NewCastToken::try_from(v).unwrap())
                } else {
                    let v = *r.pick(&[0x46u8, 0x47, 0x49]);
                    s.put(&[v], 1);
                    CastToken::Old(OldCastToken::try_from(v).unwrap())
                };
                x!(ExPrimitiveCast, conversion_type: ct, target: s.b(r, d))
            }
            0x39 => x!(ExSetSet, set_property: s.b(r, d), elements: s.counted(r, d, 0x3A, 1)),
            0x3B => x!(ExSetMap, map_property: s.b(r, d), elements: s.counted(r, d, 0x3C, 2)),
            0x3D => x!(ExSetConst, inner_property: s.p(r), elements: s.counted(r, d, 0x3E, 1)),
            0x3F => x!(ExMapConst, key_property: s.p(r), value_property: s.p(r), elements: s.counted(r, d, 0x40, 2)),
            0x42 => x!(ExStructMemberContext, struct_member_expression: s.p(r), struct_expression: s.b(r, d)),
            0x43 => x!(ExLetMulticastDelegate, variable_expression: s.b(r, d), assignment_expression: s.b(r, d)),
            0x44 => x!(ExLetDelegate, variable_expression: s.b(r, d), assignment_expression: s.b(r, d)),
            0x45 => x!(ExLocalVirtualFunction, virtual_function_name: s.n(r), parameters: s.list(r, d, 0x16)),
            0x46 => x!(ExLocalFinalFunction, stack_node: s.o(r), parameters: s.list(r, d, 0x16)),
            0x48 => x!(ExLocalOutVariable, variable: s.p(r)),
            0x4A => x!(ExDeprecatedOp4A),
            0x4B => x!(ExInstanceDelegate, function_name: s.n(r)),
            0x4C => x!(ExPushExecutionFlow, pushing_address: s.u(r)),
            0x4D => x!(ExPopExecutionFlow),
            0x4E => x!(ExComputedJump, code_offset_expression: s.b(r, d)),
            0x4F => x!(ExPopExecutionFlowIfNot, boolean_expression: s.b(r, d)),
            0x50 => x!(ExBreakpoint),
            0x51 => x!(ExInterfaceContext, interface_value: s.b(r, d)),
            0x52 => x!(ExObjToInterfaceCast, class_ptr: s.o(r), target: s.b(r, d)),
            0x53 => x!(ExEndOfScript),
            0x54 => x!(ExCrossInterfaceCast, class_ptr: s.o(r), target: s.b(r, d)),
            0x55 => x!(ExInterfaceToObjCast, class_ptr: s.o(r), target: s.b(r, d)),
            0x5A => x!(ExWireTracepoint),
            0x5B => x!(ExSkipOffsetConst, value: s.u(r)),
            0x5C => x!(ExAddMulticastDelegate, delegate: s.b(r, d), delegate_to_add: s.b(r, d)),
            0x5D => x!(ExClearMulticastDelegate, delegate_to_clear: s.b(r, d)),
            0x5E => x!(ExTracepoint),
            0x5F => x!(ExLetObj, variable_expression: s.b(r, d), assignment_expression: s.b(r, d)),
            0x60 => x!(ExLetWeakObjPtr, variable_expression: s.b(r, d), assignment_expression: s.b(r, d)),
            0x61 => x!(ExBindDelegate, function_name: s.n(r), delegate: s.b(r, d), object_term: s.b(r, d)),
            0x62 => x!(ExRemoveMulticastDelegate, delegate: s.b(r, d), delegate_to_add: s.b(r, d)),
            0x63 => x!(ExCallMulticastDelegate, stack_node: s.o(r), delegate: s.b(r, d), parameters: s.list(r, d, 0x16)),
            0x64 => x!(ExLetValueOnPersistentFrame, destination_property: s.p(r), assignment_expression: s.b(r, d)),
            0x65 => x!(ExArrayConst, inner_property: s.p(r), elements: s.counted(r, d, 0x66, 1)),
            0x67 => x!(ExSoftObjectConst, value: s.b(r, d)),
            0x68 => x!(ExCallMath, stack_node: s.o(r), parameters: s.list(r, d, 0x16)),
            0x69 => {
                let n = r.below(4);
                s.put(&(n as u16).to_le_bytes(), 2);
                let end_goto_offset = s.u(r);
                let index_term = s.b(r, d);
                let cases = (0..n)
                    .map(|_| {
                        let a = s.expr(r, d + 1);
                        let o = s.u(r);
                        let c = s.expr(r, d + 1);
                        KismetSwitchCase::new(a, o, c)
                    })
                    .collect();
                let default_term = s.b(r, d);
                x!(ExSwitchValue, end_goto_offset: end_goto_offset, index_term: index_term, default_term: default_term, cases: cases)
            }
            0x6A => {
                let v = r.below(17) as u8;
                s.put(&[v], 1);
                let event_name = (v == 4).then(|| {
                    s.mem_known = false;
                    s.n(r)
                });
                x!(ExInstrumentationEvent, event_type: EScriptInstrumentationType::try_from(v).unwrap(), event_name: event_name)
            }
            0x6B => x!(ExArrayGetByRef, array_variable: s.b(r, d), array_index: s.b(r, d)),
            0x6C => x!(ExClassSparseDataVariable, variable: s.p(r)),
            0x6D => x!(ExFieldPathConst, value: s.b(r, d)),
            _ => unreachable!(),
        }
    }
}

pub fn a06(c: &Ctx) {
    c.rule("Random scripts from an independent encoder, with their in-memory sizes, are read, compared, rewritten, measured and cut short. Non-trivial = a distinct encoded script.");
    let toks: Vec<u8> = LEAVES.iter().chain(INNER).copied().collect();
    let toks: &'static [u8] = Box::leak(toks.into_boxed_slice());
    c.cases("token", c.n(200_000, 4_000_000), |r, _| {
        let t = *r.pick(toks);
        case(r, Some(t))
    });
    c.cases("script", c.n(60_000, 1_500_000), |r, _| case(r, None));
}
fn case(r: &mut Rng, tok: Option<u8>) -> CaseRes {
    let cf = crate::p_prop::cfg(r);
    let mut o = Obs::new();
    let mut k = K::new(&cf, if tok.is_some() { 12 } else { 120 });
    let want: Vec<KismetExpression> = match tok {
        Some(t) => vec![k.token(r, 0, t)],
        None => (0..r.range(1, 12)).map(|_| k.expr(r, 0)).collect(),
    };
    let (bytes, mem, known, seen) = (k.out, k.mem, k.mem_known, k.seen);
    for t in &seen {
        o.class(&format!("token_{t:02x}"));
    }
    let what = || format!("{want:?} as {:02x?}", &bytes);
    // reading
    let mut a = cf.plain(bytes.clone());
    let got = nopanic("panic-read", what, || {
        let mut v = vec![];
        while a.pos < a.d.len() {
            v.push(KismetExpression::new(&mut a)?);
        }
        Ok::<_, unreal_asset_base::error::Error>(v)
    })?;
    let got = match got {
        Ok(v) => v,
        Err(e) => return fail("refused", format!("bytecode refused: {e}: {}", what())),
    };
    o.ev(2);
    if got != want {
        return fail("value", format!("read {got:?} expected {}", what()));
    }
    // writing the values, both as read and as built
    for (l, v) in [("read", &got), ("built", &want)] {
        let mut w = cf.plain(vec![]);
        let n = nopanic("panic-write", what, || {
            let mut n = 0;
            for e in v {
                n += KismetExpression::write(e, &mut w)?;
            }
            Ok::<_, unreal_asset_base::error::Error>(n)
        })?;
        let n = match n {
            Ok(n) => n,
            Err(e) => return fail("write-refused", format!("{l} expression refused: {e}: {}", what())),
        };
        o.ev(2);
        if w.d != bytes {
            return fail("bytes", format!("{l} expression written as {:02x?} expected {}", w.d, what()));
        }
        if known && n != mem {
            return fail("size", format!("{l} expression: size in memory {n}, engine computes {mem}: {}", what()));
        }
    }
    // a truncated script is refused
    if !bytes.is_empty() && r.chance(1, 4) {
        let cut = r.below(bytes.len());
        let mut a = cf.plain(bytes[..cut].to_vec());
        let ok = nopanic("panic-cut", what, || {
            let mut v = vec![];
            while a.pos < a.d.len() {
                match KismetExpression::new(&mut a) {
                    Ok(e) => v.push(e),
                    Err(_) => return None,
                }
            }
            Some(v)
        })?;
        o.ev(1);
        o.class("truncated");
        if let Some(v) = ok {
            if want.len() < v.len() || v[..] != want[..v.len()] || v.len() == want.len() {
                return fail("cut", format!("truncated at {cut} read as {v:?}: {}", what()));
            }
        }
    }
    o.nontrivial(&bytes);
    Ok(o)
}
