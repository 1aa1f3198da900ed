// display flags: bit 0 = selected, bit 1 = searched
pub open spec fn fl_sel(f: OutputFlag) -> bool { bit(f.mode, 1) == 1 }
pub open spec fn fl_sea(f: OutputFlag) -> bool { bit(f.mode, 2) == 1 }
