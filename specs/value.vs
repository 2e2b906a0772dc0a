@@ fn value | Object | new
@@ ret r
    ensures r.0@ == Seq::<Entry<'a>>::empty(),
@@ fn value | Default for Object | default
@@ ret r
    ensures r.0@ == Seq::<Entry<'a>>::empty(),
@@ fn value | Object | with_capacity
@@ ret r
    ensures r.0@ == Seq::<Entry<'a>>::empty(),
@@ fn value | Deref for Object | deref
@@ ret r
    ensures *r == self.0,
@@ fn value | DerefMut for Object | deref_mut
@@ ret r
    ensures *r == old(self).0, *final(r) == final(self).0,
@@ fn value | ParseDelegate for ValueParser | object_value
@@ head
proof { mems_ext(*object, *object, object.0@.len()); }
let ghost old_object = *object;
@@ before Ok(())
proof { mems_ext(old_object, *object, old_object.0@.len()); }
@@ fn value | ParseDelegate for ValueParser | object_is_empty
@@ head
proof { mems_ext(*object, *object, object.0@.len()); }
@@ fn value | ParseDelegate for ValueParser | array_value
@@ head
proof { trees_ext(*array, *array, array@.len()); }
let ghost old_array = *array;
@@ before Ok(())
proof { trees_ext(old_array, *array, old_array@.len()); }
@@ fn value | ParseDelegate for ValueParser | array_is_empty
@@ head
proof { trees_ext(*array, *array, array@.len()); }
@@ fn value | Value | from_json
@@ ret r
    ensures same::<ValueParser>(r, run::<ValueParser>(encode_utf8(json@), true, dflt(), ())), r is Err ==> r->Err_0.offset <= encode_utf8(json@).len(),
        match crate::theorems::accepted(encode_utf8(json@), true, dflt()) { Some(t) => r is Ok && tree(r->Ok_0) == t, None => r is Err },
@@ head
proof { crate::trusted::str_len_bound(json); crate::theorems::value_parse_thm(encode_utf8(json@), true, dflt()); }
@@ fn value | Value | from_json_with_config
@@ ret r
    ensures same::<ValueParser>(r, run::<ValueParser>(encode_utf8(json@), true, config, ())), r is Err ==> r->Err_0.offset <= encode_utf8(json@).len(),
        match crate::theorems::accepted(encode_utf8(json@), true, config) { Some(t) => r is Ok && tree(r->Ok_0) == t, None => r is Err },
@@ head
proof { crate::trusted::str_len_bound(json); crate::theorems::value_parse_thm(encode_utf8(json@), true, config); }
@@ fn value | Value | from_json_bytes
@@ ret r
    ensures same::<ValueParser>(r, run::<ValueParser>(json@, false, dflt(), ())), r is Err ==> r->Err_0.offset <= json@.len(),
        match crate::theorems::accepted(json@, false, dflt()) { Some(t) => r is Ok && tree(r->Ok_0) == t, None => r is Err },
@@ head
proof { crate::trusted::slice_len_bound(json); crate::theorems::value_parse_thm(json@, false, dflt()); }
@@ fn value | Value | from_json_bytes_with_config
@@ ret r
    ensures same::<ValueParser>(r, run::<ValueParser>(json@, false, config, ())), r is Err ==> r->Err_0.offset <= json@.len(),
        match crate::theorems::accepted(json@, false, config) { Some(t) => r is Ok && tree(r->Ok_0) == t, None => r is Err },
@@ head
proof { crate::trusted::slice_len_bound(json); crate::theorems::value_parse_thm(json@, false, config); }
