for p in('P03','P04','P15'):
    c(p,'p_stream.py','abstract interpretation of the LLVM IR: inductive step of the streaming calls from an arbitrary valid context','proof','Induction over the calls: init, one update of any length class from any valid context, final; every pending count. A discrepancy is reported only with a history from t1ha2_init that shows it (P03, P04). '+TR)
c('P12','p_rel.py','abstract interpretation: support of the value numbers of the results','proof','The results mention only bytes of the buffer, seeds and lengths. '+TR)
c('P13','p_rel.py','abstract interpretation: liveness of every input bit in the value numbers of the results','proof','Value numbers equal the algorithm\'s, in which every bit of input, seed and length is live on sampled contents. '+TR)
c('P22','p_rel.py',VN.replace('compared with the published algorithm','compared between builds with and without the compiler facilities'),'proof','Builds without 128-bit integers, carry or byte-swap helpers have the value numbers of builds with them. '+TR)
c('P11','p_disp.py','reachability, mod/ref and escape analysis over the LLVM IR of the whole library; abstract interpretation of the writers of the dispatch pointer','proof','No function reachable from a hash refers to mutable globals, outside code or machine state; every store to the dispatch pointer holds the selection, in 47 builds. '+TR)
c('P17','p_disp.py','abstract interpretation of the selection function over a processor model, against the target features in the code of each implementation','proof','The selected function\'s extensions are a subset of those offered, for every modelled answer of cpuid/xgetbv. The answers are enumerated over the bits with a meaning, single other bits, and maximum leaves. '+TR)
c('P18','p_disp.py','abstract interpretation of calls of t1ha0 before, during and after start-up in every dispatch mode; comparison of compile-time and run-time choices','proof','Calls reach the selected function with unchanged arguments in all call/start-up orders up to three steps. '+TR)
c('P19','p_check.py','abstract interpretation of every self-check with opaque hashes; cofactors of the verdict with respect to each comparison','proof','The verdict is shown to be the constant -1 once any comparison fails, whatever the others; with the published results it is 0. '+TR)
c('P20','p_check.py','abstract interpretation of the roll-up self-checks with opaque leaves over the processor model and all family options','proof','Every single, pair and total failure of covered leaves, in every modelled machine and option combination, decides the verdict; no leaf runs where it can not. '+TR)
c('P21','p_build.py','compilation of every source file over the option matrix; declarations of the type-checked header against definitions; link closure over the symbol tables','proof','Every build of the option matrix compiles, each declaration has exactly one definition, each reference is satisfied, and C and C++ users of the whole header compile and link. '+TR)
c('P24','p_build.py','visibility of every external symbol in the IR of every unit against the API marks of the type-checked header','proof','The dynamic symbol set equals the declared API in every build of the option matrix, and the inline code of the header uses nothing else. '+TR)
