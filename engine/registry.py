PROPS={}
def P(pid,units,level='proof',**k): PROPS[pid]=dict(units=units,level=level,**k)
P('C01',[dict(src='complex.cpp')])
P('C02',[dict(src='matrix.cpp')])
P('C03',[dict(src='linalg.cpp')])
P('C04',[dict(src='arrays.cpp')])
P('C05',[dict(src='su2.cpp')])
P('C06',[dict(src='sun.cpp')])
P('C07',[dict(src='coords.cpp',ndim=[4,3,2],ndim_thorough=[4,3,2,1])])

P('C08',[dict(src='layout.cpp',ndim=[4,3,2]),dict(src='siteorder.cpp',ndim=[4,3,2]),dict(src='ownership.cpp',ndim=[4,2],only='nodeinfo|lemma_.*')],
  assumptions=['node boxes have fewer than 2^31 sites and coordinates below 2^24 per direction','std::vector allocation in node_struct::setup succeeds'])
P('C09',[dict(src='ownership.cpp',ndim=[4,2],ndim_thorough=[4,3,2]),dict(src='division.cpp',ndim=[4,3,2]),
   dict(src='siteorder.cpp',ndim=[4,2],only='node_queries'),dict(src='layout.cpp',ndim=[4,2],only='node_setup|lemma_.*')],
  assumptions=['fewer than 2^31 nodes and sites per node'],
  bounds='bounded stand-in (not counted as proved): setup_layout and setup_nodes run for every lattice up to 20^2, 9^3, 6^4 and up to 64/32/32 nodes')
P('C10',[dict(src='gathers.cpp',ndim=[3,2],ndim_thorough=[4,3,2]),dict(src='ownership.cpp',ndim=[4,3,2],only='neighbour_node_.*|lemma_.*'),
   dict(src='layout.cpp',ndim=[4,3,2],only='site_index_.*|lemma_.*'),dict(src='siteorder.cpp',ndim=[4,2],only='node_queries|lemma_.*')],
  assumptions=['fewer than 2^31 sites per node and nodes; the number of sites before a given one (ghost counter) counts the sites of a plane on sender and receiver alike because their order agrees (slot_order)'],tlimit=600)

P('C11',[dict(src='comms.cpp',ndim=[4,2],ndim_thorough=[4,3,2])],
  assumptions=['every rank makes the same sequence of calls (SPMD), MPI delivers messages in order per (source, tag)','the halo description of the lattice is as proved in C10; a gather to itself means both partners are the node itself','even lattice sizes, or assignments to ALL, so that a site and its neighbours have opposite parity','fewer than 2^31 bytes per message (larger ones are refused by the code)'],tlimit=600)

P('C12',[dict(src='updates.cpp',ndim=[4])],
  assumptions=['log is increasing, not positive on (0,1], exp is positive, at most 1 on arguments <= 0, and inverse to log; sin^2 + cos^2 = 1','hila::random() returns deviates in [0,1) (their distribution is not proved)','the SU(2) part of the staple sum is not zero in any subgroup, beta > 0','the action of a subgroup step is arbitrary: a step of the N = 3 heat bath is proved once per subgroup and the states after the other steps are covered by that'],tlimit=600)

P('C13',[dict(src='reductions.cpp',ndim=[4]),dict(src='nodesums.cpp',ndim=[4]),dict(src='minmax.cpp',ndim=[4]),
  dict(src='siteselect.cpp',ndim=[4])],
  assumptions=['MPI_Allreduce and MPI_Reduce combine exactly one contribution per rank; every rank makes the same sequence of calls (SPMD)','options of a reduction variable are changed only when no delayed reduction of it is pending, and += outside a site loop is not used then','the site loop of min/max is run for one site (the loop itself is generated by hilapp)'],
  bounds='arrays and reduction vectors have three elements (the loops over elements are unrolled)',tlimit=300)
