//@include ir.inc
//@include fn_sizes.inc
pub fn vformat() -> String { String::new() }
//@fn src/middle_end/ir_types.rs IrType::get_pointer_object_byte_size
//@ret r
//@spec
    requires self matches IrType::PointerTo(t) ==> t.defined(prog),
    ensures match *self { IrType::PointerTo(t) => r is Ok && r->Ok_0.known() == t.size(prog) && r->Ok_0 is CompileTime, _ => r is Err },
//@end
//@fn src/middle_end/ir_types.rs IrType::get_array_size
//@ret r
//@spec
    ensures match *self {
        IrType::ArrayOf(_, Some(n)) => r == Ok::<TypeSize, MiddleEndError>(n),
        IrType::ArrayOf(_, None) => r == Ok::<TypeSize, MiddleEndError>(TypeSize::CompileTime(0)),
        _ => r is Err,
    },
//@end

pub open spec fn total(sizes: Seq<nat>) -> nat decreases sizes.len() {
    if sizes.len() == 0 { 0 } else { total(sizes.drop_last()) + sizes.last() }
}
pub proof fn total_mono(sizes: Seq<nat>, i: int, j: int)
    requires 0 <= i <= j <= sizes.len(),
    ensures total(sizes.take(i)) <= total(sizes.take(j)),
    decreases j - i,
{
    if i < j {
        total_mono(sizes, i, j - 1);
        assert(sizes.take(j).drop_last() =~= sizes.take(j - 1));
    }
}
impl StructType {
    /// the members lie one after another, in declaration order, from byte 0 to the size of the struct
    pub open spec fn laid_out(&self, sizes: Seq<nat>) -> bool {
        &&& self.members@.len() == sizes.len()
        &&& self.members@.no_duplicates()
        &&& self.total_byte_size == total(sizes)
        &&& forall|i: int| 0 <= i < sizes.len() ==> self.member_byte_offsets@.contains_key(#[trigger] self.members@[i])
        &&& forall|i: int| 0 <= i < sizes.len() ==> self.member_types@.contains_key(#[trigger] self.members@[i])
        &&& forall|i: int| 0 <= i < sizes.len() ==> self.member_byte_offsets@[#[trigger] self.members@[i]] == total(sizes.take(i))
        &&& forall|m: String| #[trigger] self.member_types@.contains_key(m) ==> self.members@.contains(m)
    }
}
/// distinct members occupy disjoint byte ranges inside the struct, one directly after the other
pub proof fn lemma_struct_layout(s: StructType, sizes: Seq<nat>, i: int, j: int)
    requires s.laid_out(sizes), 0 <= i < j < sizes.len(),
    ensures
        s.member_byte_offsets@[s.members@[i]] + sizes[i] <= s.member_byte_offsets@[s.members@[j]],
        s.member_byte_offsets@[s.members@[j]] + sizes[j] <= s.total_byte_size,
        j == i + 1 ==> s.member_byte_offsets@[s.members@[i]] + sizes[i] == s.member_byte_offsets@[s.members@[j]],
        s.member_byte_offsets@[s.members@[0]] == 0,
{
    total_mono(sizes, i + 1, j);
    assert(sizes.take(i + 1).drop_last() =~= sizes.take(i));
    total_mono(sizes, j + 1, sizes.len() as int);
    assert(sizes.take(j + 1).drop_last() =~= sizes.take(j));
    assert(sizes.take(sizes.len() as int) =~= sizes);
    assert(s.member_byte_offsets@[s.members@[0]] == total(sizes.take(0)));
    assert(s.member_byte_offsets@[s.members@[i]] == total(sizes.take(i)));
    assert(s.member_byte_offsets@[s.members@[j]] == total(sizes.take(j)));
}
//@fn src/middle_end/ir_types.rs StructType::named
//@ret r
//@spec
    ensures r.laid_out(Seq::empty()), r.name == Some(name),
//@end
//@fn src/middle_end/ir_types.rs StructType::unnamed
//@ret r
//@spec
    ensures r.laid_out(Seq::empty()), r.name is None,
//@end
//@fn src/middle_end/ir_types.rs StructType::has_member
//@ret r
//@spec
    ensures r == exists|s: String| s@ == member_name@ && #[trigger] self.member_types@.contains_key(s),
//@end
//@fn src/middle_end/ir_types.rs StructType::push_member
//@ret r
//@spec
    requires member_type.defined(prog), exists|sizes: Seq<nat>| old(self).laid_out(sizes), old(self).total_byte_size + member_type.size(prog) <= u64::MAX,
    ensures
        r is Ok <==> !old(self).member_types@.contains_key(member_name),
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> {
            &&& forall|sizes: Seq<nat>| #[trigger] old(self).laid_out(sizes) ==> final(self).laid_out(sizes.push(member_type.size(prog)))
            &&& final(self).members@ == old(self).members@.push(member_name)
            &&& final(self).member_types@ == old(self).member_types@.insert(member_name, member_type)
        },
//@end_
        proof {
            assert forall|sizes: Seq<nat>| #[trigger] old(self).laid_out(sizes) implies self.laid_out(sizes.push(member_type.size(prog))) by {
                let more = sizes.push(member_type.size(prog));
                assert(more.drop_last() =~= sizes);
                assert(more.take(sizes.len() as int) =~= sizes);
                assert forall|i: int| 0 <= i < sizes.len() implies self.member_byte_offsets@[#[trigger] self.members@[i]] == total(more.take(i)) by {
                    assert(old(self).members@[i] == self.members@[i]);
                    assert(more.take(i) =~= sizes.take(i));
                    assert(old(self).member_types@.contains_key(old(self).members@[i]));
                }
                assert forall|m: String| #[trigger] self.member_types@.contains_key(m) implies self.members@.contains(m) by {
                    if m == member_name { assert(self.members@[sizes.len() as int] == m); }
                    else {
                        assert(old(self).member_types@.contains_key(m));
                        let k = old(self).members@.index_of(m);
                        assert(self.members@[k] == m);
                    }
                }
            }
        }
//@end
//@fn src/middle_end/ir_types.rs StructType::member_count
//@ret r
//@spec
    ensures r == self.members@.len(),
//@end
//@fn src/middle_end/ir_types.rs StructType::get_member_type
//@ret r
//@spec
    ensures match r {
        Ok(t) => exists|s: String| s@ == member_name@ && #[trigger] self.member_types@.contains_key(s) && self.member_types@[s] == t,
        Err(_) => forall|s: String| s@ == member_name@ ==> !#[trigger] self.member_types@.contains_key(s),
    },
//@end
//@fn src/middle_end/ir_types.rs StructType::get_member_byte_offset
//@ret r
//@spec
    ensures match r {
        Ok(t) => exists|s: String| s@ == member_name@ && #[trigger] self.member_byte_offsets@.contains_key(s) && self.member_byte_offsets@[s] == t,
        Err(_) => forall|s: String| s@ == member_name@ ==> !#[trigger] self.member_byte_offsets@.contains_key(s),
    },
//@end
//@fn src/middle_end/ir_types.rs StructType::get_member_type_by_index
//@ret r
//@spec
    requires exists|sizes: Seq<nat>| self.laid_out(sizes),
    ensures match r { Ok(t) => index < self.members@.len() && self.member_types@[self.members@[index as int]] == t, Err(_) => index >= self.members@.len() },
//@end
//@fn src/middle_end/ir_types.rs StructType::get_member_byte_offset_by_index
//@ret r
//@spec
    requires exists|sizes: Seq<nat>| self.laid_out(sizes),
    ensures match r { Ok(t) => index < self.members@.len() && self.member_byte_offsets@[self.members@[index as int]] == t, Err(_) => index >= self.members@.len() },
//@end

impl UnionType {
    /// the size is that of the largest member
    pub open spec fn laid_out(&self, sizes: Map<String, nat>) -> bool {
        &&& sizes.dom() == self.member_types@.dom()
        &&& forall|m: String| #[trigger] sizes.contains_key(m) ==> sizes[m] <= self.total_byte_size
        &&& self.total_byte_size == 0 || exists|m: String| #[trigger] sizes.contains_key(m) && sizes[m] == self.total_byte_size
    }
}
//@fn src/middle_end/ir_types.rs UnionType::named
//@ret r
//@spec
    ensures r.laid_out(Map::empty()), r.name == Some(name),
//@end
//@fn src/middle_end/ir_types.rs UnionType::unnamed
//@ret r
//@spec
    ensures r.laid_out(Map::empty()), r.name is None,
//@end
//@fn src/middle_end/ir_types.rs UnionType::has_member
//@ret r
//@spec
    ensures r == exists|s: String| s@ == member_name@ && #[trigger] self.member_types@.contains_key(s),
//@end
//@fn src/middle_end/ir_types.rs UnionType::push_member
//@ret r
//@spec
    requires member_type.defined(prog), member_type.size(prog) <= u64::MAX,
    ensures
        r is Ok <==> !old(self).member_types@.contains_key(member_name),
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> {
            &&& forall|sizes: Map<String, nat>| #[trigger] old(self).laid_out(sizes) ==> final(self).laid_out(sizes.insert(member_name, member_type.size(prog)))
            &&& final(self).member_types@ == old(self).member_types@.insert(member_name, member_type)
        },
//@end_
        proof {
            assert forall|sizes: Map<String, nat>| #[trigger] old(self).laid_out(sizes) implies self.laid_out(sizes.insert(member_name, member_type.size(prog))) by {
                let more = sizes.insert(member_name, member_type.size(prog));
                assert(more.contains_key(member_name));
                assert(more.dom() =~= self.member_types@.dom());
                assert forall|m: String| #[trigger] more.contains_key(m) implies more[m] <= self.total_byte_size by {
                    if m != member_name { assert(sizes.contains_key(m)); }
                }
                if old(self).total_byte_size == self.total_byte_size && self.total_byte_size != 0 {
                    let m = choose|m: String| #[trigger] sizes.contains_key(m) && sizes[m] == old(self).total_byte_size;
                    assert(more.contains_key(m));
                }
            }
        }
//@end
//@fn src/middle_end/ir_types.rs UnionType::get_member_type
//@ret r
//@spec
    ensures match r {
        Ok(t) => exists|s: String| s@ == member_name@ && #[trigger] self.member_types@.contains_key(s) && self.member_types@[s] == t,
        Err(_) => forall|s: String| s@ == member_name@ ==> !#[trigger] self.member_types@.contains_key(s),
    },
//@end

// array sizes: the syntax of a run-time size is an uninterpreted term
//@type src/front_end/ast.rs BinaryOperator
pub enum AstConstant { Int(u128), Other }
pub uninterp spec fn product(a: Expression, b: Expression) -> Expression;
pub uninterp spec fn literal(n: nat) -> Expression;
#[allow(non_snake_case)]
impl Expression {
    #[verifier::external_body]
    fn BinaryOp(op: BinaryOperator, a: Box<Expression>, b: Box<Expression>) -> (r: Expression) ensures op is Mult ==> r == product(*a, *b) { unimplemented!() }
    #[verifier::external_body]
    fn Constant(c: AstConstant) -> (r: Expression) ensures c matches AstConstant::Int(n) ==> r == literal(n as nat) { unimplemented!() }
}
//@fn src/middle_end/ir_types.rs IrType::get_array_byte_size
//@subst Constant::Int => AstConstant::Int
//@ret r
//@spec
    requires self matches IrType::ArrayOf(t, n) ==> t.defined(prog) && (n matches Some(TypeSize::CompileTime(k)) ==> t.size(prog) * (k as int) <= u64::MAX),
    ensures match *self {
        IrType::ArrayOf(t, Some(TypeSize::CompileTime(n))) => r is Ok && r->Ok_0 is CompileTime && r->Ok_0.known() == t.size(prog) * (n as int),
        IrType::ArrayOf(t, Some(TypeSize::Runtime(e))) => r is Ok && r->Ok_0 is Runtime && (r->Ok_0->Runtime_0 == product(e, literal(t.size(prog))) || r->Ok_0->Runtime_0 == product(literal(t.size(prog)), e)),
        IrType::ArrayOf(_, None) => r is Ok && r->Ok_0 is CompileTime && r->Ok_0.known() == 0,
        _ => r is Err,
    },
//@end
