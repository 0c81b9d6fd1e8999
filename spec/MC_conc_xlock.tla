---- MODULE MC_conc_xlock ----
\* written by lib/scn.py
EXTENDS Conc
Scenarios == <<
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"lk", 1, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"ex", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"sh", 2, 1, 0>>, <<"lk", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"wc", 2, 1, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"sh", 1, 1, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"wc", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"wu", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"lk", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"ex", 1, 0, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"sh", 1, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"wc", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 2, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"sh", 1, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"lk", 1, 1, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"sh", 2, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"lk", 1, 1, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"lk", 1, 1, 0>>, <<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"sh", 1, 1, 0>>, <<"sh", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 2, 1, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"sh", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 2, 1, 0>>, <<"sh", 1, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 2, 1, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"sh", 1, 1, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"us", 1, 0, 0>>, <<"lk", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 2, 1, 0>>, <<"sh", 1, 1, 0>>, <<"sh", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"wu", 1, 0, 0>>, <<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"us", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"sh", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"lk", 2, 2, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"us", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"us", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"us", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"lk", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"us", 1, 0, 0>>, <<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"sh", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"wu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"lk", 2, 2, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"sh", 1, 1, 0>>, <<"lk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"sh", 1, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"us", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"wu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"wu", 1, 0, 0>>, <<"sh", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"sh", 1, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"sh", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"sh", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"ex", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 2, 1, 0>>, <<"lk", 1, 1, 0>>, <<"lk", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"lk", 1, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"lk", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"lk", 2, 2, 0>>, <<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"us", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"sh", 1, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"wu", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"lk", 2, 2, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"lk", 2, 2, 0>>, <<"wc", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"wu", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"sh", 1, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"sh", 2, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"sh", 2, 1, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"lk", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"lk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"wu", 1, 0, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"sh", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"lk", 2, 1, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"us", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"sh", 2, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 2, 1, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"sh", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"lk", 1, 1, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"us", 1, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"lk", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"lk", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"wc", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"lk", 2, 1, 0>>>>, <<<<"us", 1, 0, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 2, 1, 0>>, <<"ex", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"sh", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"lk", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"lk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"wu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 1, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 2, 1, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"lk", 1, 1, 0>>>>, <<<<"lk", 2, 2, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sh", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"sh", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>] >>
====
