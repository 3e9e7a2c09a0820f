M='''ce69baa C02 a tied distance was inserted at the wrong rank, so core distances were too large or small
94a2640 C13 cleaning or destroying an object that never ran freed wild pointers
63e6386 C01 data sets with fewer than five points were refused or mishandled
33e8bbb C10 threads shared one cluster pointer while assigning offsets
dec5b32 C10 every thread recomputed skewness and kurtosis into the same variables
8ea990e C15 infinite stability was reported for none or the wrong clusters
c655253 C05 a root without children kept the initial value as its lowest death level
761e62a C13 a second run lost the results of the first (leak)
6e20a29 C01 element-wise data was addressed with the wrong sizes
511c7a1 A03 variances were summed onto what the caller's structure contained
943bd15 A04 similarity sorting looked up the confidences of other clusters than given
89bc53a A04 a missing cluster list was dereferenced
6ef82e6 A04 the key set's header was read as labels
357e921 A04 the sort never ended when a confidence was not a number
c065b0e A01 a cluster map over fewer than three labels was refused by the table
ec528c0 A02 the smallest core distance depended on the member order and was 0
bc6394b O01 file names were appended to uninitialised memory, unwritable paths crashed
ae72490 O01 print buffers overflowed for large values
0508b53 O01 cluster members were printed as labels
d349802 C01 differences of integer coordinates overflowed
c00726c C18 matrix positions overflowed 32 bit or 16 bit index arithmetic
faf4eeb L01 after clearing with resize the recorded capacity exceeded the memory
2f89640 L01 inserting past the end wrote outside the list
6f79e9c L03 removing from the middle of a chain broke its backward links
a221902 L03 removed values were cut to the size of the key
4e48da0 L03 clearing destroyed keys of colliding entries twice or never
722c0c6 L03 equal strings at different addresses had different hashes
e827374 L05 hashing negative or huge floating point keys was undefined
64f9970 L04 removing head or tail left dangling links
7d241f9 L04 lookup with removal leaked the node
9ecbff0 L04 the end accesses ignored their remove option
a060d2f L05 primes beyond the table and composite results
c7b38e6 B01 the C++ headers read the C structures at the wrong offsets
d016792 B01 hdbscan::clean freed the object it was called on
086c080 B01 hdbscan::calculateOutlierScores did nothing
c4b0d04 G01 a graph without edge lists crashed
c5a8492 K01 releasing the virtual child released something else
573d03a K01 more points than a cluster has could be detached
2b99e58 C16 without self edges the edge lists were read and written out of bounds
7cd06aa C17 edge positions were cut to the index type while sorting
2f8fd2c C02 minPts above the number of points overflowed the stack
7d396e0 B02 all Python objects shared one clustering
bcac62e B02 invalid arguments crashed the interpreter
5dfcfdb B02 results referred to freed memory or leaked
eb58a58 B03 Java's clean could not be linked
09af2d5 B03 the copied data set was released with the wrong function
4b40198 B03 Java arrays were never released
b87b1aa B03 invalid arguments aborted the virtual machine
9222ac8 B03 all Java objects shared one clustering
7b38cae B03 a subclass field named handle replaced the native object
bd72749 O02 threads overwrote each other's time stamp
0598ffa C01 float coordinates' differences were rounded to float in double builds
4edc3c1 C03 points at the largest distance from each other were attached to vertex 0 twice
5472c39 L05 highestPowerof2(0) and arguments above 2^53 gave no power of two
7363de8 L05 the prime search missed the previous prime equal to the argument's neighbour
ebd7cc0 O02 messages longer than the stack crashed the logger
594d827 O02 a second initialisation left the open log file behind, so that entries changed order; closed files were written to
c8535fb O02 logger.h could not be included twice from C++
ec95f69 C19 arrays proportional to the data set overflowed small stacks
a8f2db2 C19 sorting tied or sorted values recursed once per element
b557be3 L06 a list whose growth failed lost its elements
b0436d6 L06 a failed allocation corrupted or leaked hash tables
213e766 L06 a failed allocation crashed linked lists
5f863f1 L06 the logger crashed instead of reporting that memory ran out
025248e C20 distances that do not fit in memory crashed the process
77fc126 C20 without memory for the spanning tree the process crashed or leaked
e8b2004 C20 without memory for hierarchy, labels or scores the process crashed
ea97869 B02 a Python run without memory crashed the interpreter
413ca23 B03 a Java run without memory crashed the virtual machine
789addc C20 sorting the edges crashed without memory for its own stack
693ff89 C20 successfully calculated outlier scores were reported as an error
af6824d A05 the C++ sorting functions aborted on an empty table with an empty list
70b208f A03 the statistics of no clusters read past the end of the values
482f414 C13 clustering an empty data set wrote outside its memory
54d5da0 C20 only the first of more elements than the index type counts were clustered
398d721 B01 computing distances again with the same object leaked the previous ones
82c21a7 C20 building a graph crashed or lost edges when memory ran out for the neighbours of a vertex
56f2a9a C20 creating a cluster crashed when memory ran out for its lists
156e6c9 C20 propagating clusters crashed or lost descendants when memory ran out
89ddf92 C20 selecting the prominent clusters crashed or lost clusters when memory ran out
57a3424 C20 building the hierarchy crashed or lost lines when memory ran out for an entry
6b83ce6 C20 building the hierarchy crashed or lost points and clusters when memory ran out for its sets
8cc5857 A06 creating a cluster map crashed or lost points when memory ran out
cccedb2 A06 getting the cluster distance ranges crashed when memory ran out
82ff9ab A06 calculating cluster statistics crashed when memory ran out
84b8e1d A06 sorting clusters crashed or lost clusters when memory ran out
4654a00 A06 the C++ sorting functions crashed when memory ran out
3dc7a90 A06 adding points to a virtual child reported success when memory ran out
c168a6e A06 propagating a cluster without memory left its parent half updated'''
out=['# genuine defects of ojmakhura/hdbscan found by these checks','# fixed: property=<id> <commit> <what failed>   suppresses nothing','# known: property=<id> key=<violation key> <what fails>   (none at present)']
import subprocess
for l in M.split('\n'):
    c,p,t=l.split(' ',2); full=subprocess.check_output(['git','-C','/repo','rev-parse',c],text=True).strip()
    out.append('fixed: property=%s %s %s'%(p,full[:12],t))
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
