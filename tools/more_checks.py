FDRV = "runtime monitoring: operation scripts on the real Fortran modules under AddressSanitizer, UBSan and gfortran checks, every logged result compared with a reference model"
C["C18"] = (FDRV, NOTE)
C["C17"] = (FDRV, NOTE)
C["C13"] = (WORLD, NOTE)
C["C14"] = (WORLD, NOTE)
C["C11"] = ("runtime monitoring: histories of edits, faults and reruns of the real generator, the resulting directories compared with runs into an empty directory", NOTE)
C["C12"] = ("runtime monitoring: repeated runs of the real generator under permuted hash seeds, directory orders, environments and locations, byte comparison of the trees; executed worlds with permuted host file order judged by the reference model", NOTE)
C["C09"] = ("runtime monitoring: the real generator run on generated consistent inputs and on inputs with one planted conflict; exit status, diagnostics and output tree judged by an oracle", NOTE)
C["C15"] = ("runtime monitoring: the real offline checker and capgen run on generated Fortran modules in varied styles with agreeing metadata or one planted difference; exit status and diagnostics judged by an oracle", NOTE)
C["C21"] = ("runtime monitoring: the real Fortran reader run on generated modules in varied source styles, every table and variable it reads compared with the declaration the generator wrote (gfortran confirms the generator)", NOTE)
C["C22"] = ("runtime monitoring: the real Fortran reader run on generated sources with preprocessor conditionals under generated macro definitions; the declarations it keeps are compared with the lines cpp keeps (cpp confirms the oracle)", NOTE)
C["C20"] = ("runtime monitoring: the real metadata parser run on generated files in random layouts, with and without one planted fault; every table, section and property value compared with the generating model", NOTE)
C["C23"] = ("runtime monitoring: the real Fortran writer run on generated statements, comments and literals; line lengths monitored, rejoined statements compared token by token, part of them compiled and executed", NOTE)
C["C24"] = ("runtime monitoring: unit strings put to the real code, the transformations it answers with compiled and executed on sample values and judged by the physical definition of the units; accept/reject judged by an oracle", NOTE)
C["C19"] = ("runtime monitoring: worlds generated with --debug executed with right and wrong host array extents planted by the driver; the event log compared with the run on right extents, the reference model and the caps without --debug", NOTE)
PREW = "runtime monitoring: executed random prebuild worlds, event log replayed against a reference model"
C["C25"] = (PREW, NOTE)
C["C26"] = (PREW, NOTE)
C["C27"] = (PREW, NOTE)
C["C28"] = ("runtime monitoring: histories of edits, faults and reruns of the real ccpp_prebuild, the build directories compared with fresh runs and runs under other hash seeds and directory orders", NOTE)
C["C29"] = ("runtime monitoring: the real ccpp_prebuild run on generated consistent worlds and on the same worlds with one planted inconsistency; exit status and diagnostics judged by an oracle", NOTE)
C["C30"] = ("runtime monitoring: the real variable tracker run on generated suites and metadata; every reported line compared with the generating model", NOTE)
C["C31"] = ("runtime monitoring: the real conversion tool run on generated Fortran modules in varied styles; the written metadata compared with the declarations and put through the real metadata and consistency checker", NOTE)

C["C16"] = ("runtime monitoring: executed random worlds with host, metadata and run-time constituents; the event log of the constituent interfaces and scheme arguments replayed against a reference model, partly under AddressSanitizer", NOTE)

C["C32"] = ("runtime monitoring: the real documentation tools run on generated metadata, hosts, schemes and suites; every row, cell and list of users is read back and compared with the metadata text", NOTE)
C["C33"] = ("runtime monitoring: executed random worlds whose run phase is called by several threads with random delays, under ThreadSanitizer; the merged per-thread event logs replayed against the sequential reference model", NOTE)
