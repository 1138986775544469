//# fn src/util.rs insert_multiple_at -> r
//# spec
    requires old(vec_dst)@.len() + old(vec_src)@.len() <= maxbuf(),
    ensures
        offset <= old(vec_dst)@.len() ==> r == 0 && final(vec_dst)@ == old(vec_dst)@.take(offset as int) + old(vec_src)@ + old(vec_dst)@.skip(offset as int),
        offset > old(vec_dst)@.len() ==> final(vec_dst)@ == old(vec_dst)@ && (r == 0 ==> old(vec_src)@.len() == 0),
//# begin
    proof { assert(offset <= vec_dst@.len() ==> vec_dst@ =~= vec_dst@.take(offset as int) + vec_dst@.skip(offset as int)); 
            assert(vec_src@.len() == 0 ==> vec_dst@.take(offset as int) + vec_src@ =~= vec_dst@.take(offset as int)); }
//# end

