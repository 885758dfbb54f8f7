# generates rt_syms.c: storage for the predefined handles of the real mpi.h
import re,sys
h=open(sys.argv[1]).read()
names=sorted(set(re.findall(r'OMPI_DECLSPEC extern struct ompi_predefined_\w+ (ompi_\w+)',h)))
print("/* generated: predefined MPI handles */")
for n in names: print("char %s[64] __attribute__((aligned(16)));"%n)
