    requires good_block(*old(block)), distinct_block(*old(block)), ends_block(*old(block)), old(prog_metadata).spare_vars(1), old(prog_metadata).vars_handed_out(), typed(slots_block(*old(block), old(prog_metadata)), old(prog_metadata)),
    ensures
        thinned(*old(block), *final(block), global_var_addrs@, final(prog_metadata)), null_added(final(prog_metadata), old(prog_metadata)),
        good_block(*final(block)), distinct_block(*final(block)),
        slots_block(*final(block), final(prog_metadata)).subset_of(slots_block(*old(block), old(prog_metadata))),
