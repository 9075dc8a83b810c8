// generated by tools/gen_h9.py
OP(sub1, sub<T, 1>)
OP(sub2, sub<T, 2>)
OP(sub3, sub<T, 3>)
OP(sub4, sub<T, 4>)
OP(subw1, subw<T, 1>)
OP(subw2, subw<T, 2>)
OP(subw3, subw<T, 3>)
OP(subw4, subw<T, 4>)
OP(tr01, tr<T, 0, 1>)
OP(tr10, tr<T, 1, 0>)
OP(tr012, tr<T, 0, 1, 2>)
OP(tr021, tr<T, 0, 2, 1>)
OP(tr102, tr<T, 1, 0, 2>)
OP(tr120, tr<T, 1, 2, 0>)
OP(tr201, tr<T, 2, 0, 1>)
OP(tr210, tr<T, 2, 1, 0>)
OP(tr0123, tr<T, 0, 1, 2, 3>)
OP(tr3210, tr<T, 3, 2, 1, 0>)
OP(tr1302, tr<T, 1, 3, 0, 2>)
OP(tr2031, tr<T, 2, 0, 3, 1>)
OP(tr0213, tr<T, 0, 2, 1, 3>)
OP(tr3012, tr<T, 3, 0, 1, 2>)
OP(trw10, trw<T, 1, 0>)
OP(trw201, trw<T, 2, 0, 1>)
OP(trw120, trw<T, 1, 2, 0>)
OP(trw3120, trw<T, 3, 1, 2, 0>)
OP(sts10, sts<T, 1, 0>)
OP(std10, std_<T, 1, 0>)
OP(fs10, fs<T, 1, 0>)
OP(sts20, sts<T, 2, 0>)
OP(std20, std_<T, 2, 0>)
OP(fs20, fs<T, 2, 0>)
OP(sts21, sts<T, 2, 1>)
OP(std21, std_<T, 2, 1>)
OP(fs21, fs<T, 2, 1>)
OP(sts30, sts<T, 3, 0>)
OP(std30, std_<T, 3, 0>)
OP(fs30, fs<T, 3, 0>)
OP(sts31, sts<T, 3, 1>)
OP(std31, std_<T, 3, 1>)
OP(fs31, fs<T, 3, 1>)
OP(sts32, sts<T, 3, 2>)
OP(std32, std_<T, 3, 2>)
OP(fs32, fs<T, 3, 2>)
OP(sts40, sts<T, 4, 0>)
OP(std40, std_<T, 4, 0>)
OP(sts41, sts<T, 4, 1>)
OP(std41, std_<T, 4, 1>)
OP(sts42, sts<T, 4, 2>)
OP(std42, std_<T, 4, 2>)
OP(sts43, sts<T, 4, 3>)
OP(std43, std_<T, 4, 3>)
OP(cf10, cf<T, 1, 0>)
OP(off1, off<T, 1>)
OP(cf20, cf<T, 2, 0>)
OP(cf21, cf<T, 2, 1>)
OP(off2, off<T, 2>)
OP(cf30, cf<T, 3, 0>)
OP(cf31, cf<T, 3, 1>)
OP(cf32, cf<T, 3, 2>)
OP(off3, off<T, 3>)
OP(sp20, sp2<T, 0>)
OP(sp21, sp2<T, 1>)
OP(sp30, sp3<T, 0>)
OP(sp31, sp3<T, 1>)
OP(sp32, sp3<T, 2>)
OP(sp33, sp3<T, 3>)
OP(sp34, sp3<T, 4>)
OP(sp35, sp3<T, 5>)
OP(win0, win<T, 0>)
OP(win1, win<T, 1>)
OP(win2, win<T, 2>)
OP(win3, win<T, 3>)
OP(win4, win<T, 4>)
