@@ module number
impl<'a> JsonNumber<'a> {
    /// what every number satisfies, whoever made it
    #[verifier::type_invariant]
    pub open(crate) spec fn inv(self) -> bool { num_ok(encode_utf8(nsrc(self))) }
}
@@ item number | JsonNumber => crate-fields
@@ item number | JsonNumber => clone-head
proof { use_type_invariant(self); }
@@ fn number | JsonNumber | source
@@ ret r
    ensures r@ == nsrc(*self),
