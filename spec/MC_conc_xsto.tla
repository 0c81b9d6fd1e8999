---- MODULE MC_conc_xsto ----
\* written by lib/scn.py
EXTENDS Conc
Scenarios == <<
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 1, 0>>, <<3, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 1, 2>>, <<"cn", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 0, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cy", 1, 2, 1>>>>, <<<<"cn", 1, 1, 2>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 0, 0>>, <<3, 1, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>, <<<<"cn", 1, 1, 2>>, <<"cy", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 3>>, <<3, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"cy", 1, 3, 1>>>>, <<<<"cy", 1, 3, 1>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 2, 0>>, <<1, 1, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 0, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cn", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 2>>, <<"cy", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"ld", 1, 1, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 0, 3>>, <<3, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"sm", 1, 1, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 3, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 1, 2>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 1>>, <<2, 2, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cn", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>, <<<<"ld", 3, 1, 0>>, <<"cn", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 1>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 1, 2>>, <<"cy", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 2>>, <<1, 0, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"cy", 1, 1, 2>>>>, <<<<"st", 1, 2, 0>>, <<"cy", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 1>>, <<3, 2, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 1, 1, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 3, 1>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"xc", 1, 1, 1>>>>, <<<<"cy", 1, 1, 1>>, <<"cn", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 2, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cn", 1, 1, 2>>, <<"st", 1, 2, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 0, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"cy", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 0, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cn", 1, 1, 2>>, <<"cn", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 0, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cn", 1, 1, 2>>, <<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 0, 0>>, <<2, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cn", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 0, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"st", 1, 2, 0>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 2, 3>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"xm", 2, 1, 1>>>>, <<<<"st", 1, 2, 0>>, <<"cy", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 3, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"cy", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 1, 0>>, <<2, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"cy", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 3, 2>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cn", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 3, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"xm", 1, 1, 1>>>>, <<<<"cy", 1, 1, 1>>, <<"cy", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<3, 0, 3>>, <<3, 0, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 3, 1>>, <<"st", 1, 2, 0>>>>, <<<<"cy", 1, 3, 1>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 2, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"xm", 1, 1, 1>>>>, <<<<"cy", 1, 2, 1>>, <<"cy", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<0, 2, 2>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"sn", 1, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 3, 3>>, <<3, 2, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"cy", 1, 1, 2>>>>, <<<<"cy", 1, 2, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<0, 1, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 1, 2>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 3, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"xc", 1, 1, 1>>>>, <<<<"cn", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 1, 0>>, <<3, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"cy", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 3, 2>>, <<2, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"xc", 1, 1, 1>>>>, <<<<"cy", 1, 3, 1>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 2>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"cn", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 0, 1>>, <<3, 2, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"cy", 1, 2, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 2, 1>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 2, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"xm", 2, 1, 1>>>>, <<<<"sm", 1, 1, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 0, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 0, 2>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 1, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<1, 0, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sm", 1, 1, 0>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 2, 0>>, <<0, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"cy", 1, 1, 1>>>>, <<<<"cy", 1, 1, 1>>, <<"cy", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 0, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"xm", 2, 1, 1>>>>, <<<<"xm", 2, 1, 1>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 1, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 2, 0>>, <<3, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"sm", 1, 1, 0>>>>, <<<<"xc", 1, 1, 2>>, <<"cy", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 3, 3>>, <<2, 2, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"xm", 2, 1, 1>>>>, <<<<"st", 1, 1, 0>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 1, 3>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 1, 1, 1>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 2>>, <<"cn", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 2>>, <<1, 2, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 1>>, <<"st", 1, 2, 0>>>>, <<<<"st", 1, 1, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 0, 3>>, <<3, 2, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 1>>, <<"xc", 1, 1, 1>>>>, <<<<"xc", 1, 1, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 0, 2>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"cn", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 2, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"cn", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>, <<"cy", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 2, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"cy", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 2, 1>>, <<"cy", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 0, 0>>, <<2, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"st", 1, 1, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 2, 2>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<0, 0, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"cy", 1, 2, 1>>>>, <<<<"xc", 1, 1, 2>>, <<"cy", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 0, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"ld", 1, 1, 0>>>>, <<<<"st", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 3, 0>>, <<2, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 3, 1>>, <<"st", 1, 1, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"cn", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<0, 0, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"xc", 1, 1, 1>>>>, <<<<"cy", 1, 3, 1>>, <<"cy", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 0>>, <<3, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"cy", 1, 1, 1>>>>, <<<<"cn", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 3, 0>>, <<2, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"ld", 3, 1, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 2, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cn", 1, 1, 2>>>>, <<<<"cy", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 2>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"cy", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"sm", 1, 1, 0>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 3, 3>>, <<3, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>, <<<<"cy", 1, 1, 2>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"st", 1, 2, 0>>>>, <<<<"cy", 1, 2, 1>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 0, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"xc", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>, <<"cy", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"cy", 1, 3, 1>>>>, <<<<"xc", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 0>>, <<2, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"sn", 1, 0, 0>>>>, <<<<"xm", 1, 1, 1>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 2, 2>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"xm", 1, 1, 1>>>>, <<<<"xm", 2, 1, 1>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<3, 0, 0>>, <<3, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"st", 1, 2, 0>>>>, <<<<"cy", 1, 1, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cy", 1, 2, 1>>>>, <<<<"cy", 1, 1, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 2, 2>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 1, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 0, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"ld", 1, 1, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 0, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"xc", 1, 1, 1>>>>, <<<<"cy", 1, 1, 1>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 0, 2>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 1>>, <<"cy", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>, <<"cy", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"cy", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 2, 3>>, <<3, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"sm", 1, 1, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"cy", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 2, 2>>, <<2, 1, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"cy", 1, 2, 1>>>>, <<<<"xc", 1, 1, 2>>, <<"cy", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 1, 0>>, <<3, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 2, 1>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 1>>, <<1, 1, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"sn", 1, 0, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 1, 3>>, <<3, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"xc", 1, 1, 2>>>>, <<<<"cy", 1, 1, 1>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 1>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"cy", 1, 2, 1>>, <<"cn", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 2, 2>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cy", 1, 1, 2>>>>, <<<<"xm", 2, 1, 1>>, <<"cy", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<2, 1, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 3>>, <<1, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"cy", 1, 2, 1>>>>, <<<<"ld", 1, 1, 0>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 1, 0>>, <<2, 2, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 3, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"cy", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 0>>, <<2, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"cy", 1, 1, 2>>>>, <<<<"xc", 1, 1, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 1, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"ld", 1, 1, 0>>>>, <<<<"cy", 1, 2, 1>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 3, 3>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"cy", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 2, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 3, 0>>, <<2, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cn", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>, <<<<"st", 1, 1, 0>>, <<"cn", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 2>>, <<2, 1, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"st", 1, 1, 0>>>>, <<<<"st", 1, 2, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 0, 2>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 1, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"cy", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 2, 0>>, <<2, 2, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"xc", 1, 1, 1>>>>, <<<<"cn", 1, 1, 2>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 0, 1>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"ld", 3, 1, 0>>>>, <<<<"cy", 1, 1, 2>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 2, 3>>, <<3, 0, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"cy", 1, 1, 1>>>>, <<<<"cn", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 2, 1>>, <<"cy", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 3, 3>>, <<3, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"ld", 1, 1, 0>>>>, <<<<"cy", 1, 1, 2>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 0, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"cy", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 1, 0>>, <<1, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"cy", 1, 1, 2>>>>, <<<<"xc", 1, 1, 1>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 1>>, <<"xm", 2, 1, 1>>>>, <<<<"st", 1, 2, 0>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 1, 1>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cy", 1, 3, 1>>>>, <<<<"cn", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 0, 0>>, <<0, 1, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"xm", 1, 1, 1>>>>, <<<<"st", 1, 1, 0>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 0, 0>>, <<2, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cy", 1, 1, 1>>>>, <<<<"xm", 2, 1, 1>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 2, 0>>, <<2, 2, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<3, 0, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"sm", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 2, 3>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"cy", 1, 3, 1>>>>, <<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 3, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"cy", 1, 2, 1>>>>, <<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 2, 3>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 1>>, <<"cn", 1, 1, 2>>>>, <<<<"sm", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 0, 3>>, <<2, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"xm", 1, 1, 1>>>>, <<<<"xc", 1, 1, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 0, 0>>, <<2, 0, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 3, 1>>, <<"xm", 2, 1, 1>>>>, <<<<"ld", 3, 1, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 3>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 2, 2>>, <<2, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"cy", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 2, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"cy", 1, 2, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 1, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"cy", 1, 3, 1>>>>, <<<<"xm", 1, 1, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"cy", 1, 1, 1>>>>, <<<<"sn", 1, 0, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<0, 3, 0>>, <<0, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cy", 1, 1, 1>>>>, <<<<"sm", 1, 1, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 1, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cn", 1, 1, 2>>, <<"cy", 1, 2, 1>>>>, <<<<"ld", 3, 1, 0>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 2>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"ld", 1, 1, 0>>>>, <<<<"st", 1, 1, 0>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 2, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"xm", 2, 1, 1>>>>, <<<<"xc", 1, 1, 1>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 3, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"cy", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 3, 1>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"cy", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 1, 0>>, <<1, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"st", 1, 2, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"cn", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 3, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 1>>, <<"xm", 1, 1, 1>>>>, <<<<"cy", 1, 1, 1>>, <<"cy", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 0, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 2, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"st", 1, 2, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"cy", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"xm", 2, 1, 1>>>>, <<<<"xc", 1, 1, 1>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<3, 3, 3>>, <<3, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"cy", 1, 2, 1>>>>, <<<<"cy", 1, 1, 1>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 0, 3>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"xc", 1, 1, 1>>>>, <<<<"sm", 1, 1, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 2, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"xc", 1, 1, 1>>>>, <<<<"xc", 1, 1, 2>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 1, 0>>, <<3, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"st", 1, 2, 0>>>>, <<<<"st", 1, 1, 0>>, <<"cy", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"cy", 1, 1, 1>>>>, <<<<"sn", 1, 0, 0>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 3, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>, <<<<"st", 1, 2, 0>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<0, 0, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cn", 1, 1, 2>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 2, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"cy", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 1, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 1>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>, <<<<"st", 1, 2, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 2, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"cy", 1, 1, 1>>>>, <<<<"st", 1, 1, 0>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<0, 1, 1>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cn", 1, 1, 2>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 3, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 2, 2>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 1>>, <<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 2, 1>>, <<"cy", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 3>>, <<3, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cn", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<2, 0, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"cy", 1, 3, 1>>>>, <<<<"st", 1, 2, 0>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 0, 3>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 2, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"st", 1, 1, 0>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<3, 0, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"sn", 1, 0, 0>>>>, <<<<"cn", 1, 1, 2>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 1, 0>>, <<0, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"cy", 1, 1, 1>>>>, <<<<"xc", 1, 1, 1>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 0, 1>>, <<3, 2, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 2, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"cy", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 3, 3>>, <<2, 2, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"cy", 1, 1, 2>>>>, <<<<"xm", 1, 1, 1>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 1, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"sm", 1, 1, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<1, 0, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 3, 1>>, <<"xm", 1, 1, 1>>>>, <<<<"cn", 1, 1, 2>>, <<"cy", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 1>>, <<2, 1, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"sm", 1, 1, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"cy", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 2, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"xm", 1, 1, 1>>>>, <<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<0, 3, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"cy", 1, 3, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cn", 1, 1, 2>>, <<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 3, 1>>, <<"cy", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 2>>, <<0, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"sm", 1, 1, 0>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<1, 0, 1>>, <<1, 0, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"xm", 2, 1, 1>>>>, <<<<"ld", 3, 1, 0>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<0, 2, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"cy", 1, 2, 1>>>>, <<<<"st", 1, 1, 0>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 1, 3>>, <<3, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 1>>, <<"xm", 1, 1, 1>>>>, <<<<"ld", 3, 1, 0>>, <<"cy", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<0, 0, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<0, 2, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>>>, <<<<"cy", 1, 1, 2>>>>, <<<<"cy", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 2, 2>>, <<2, 1, 0>>, <<1, 3, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>>>, <<<<"cy", 1, 3, 1>>>>, <<<<"cy", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 2, 2>>, <<2, 1, 2>>, <<3, 2, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>>>, <<<<"st", 1, 1, 0>>>>, <<<<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<0, 0, 0>>, <<0, 2, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>>>, <<<<"st", 1, 2, 0>>>>, <<<<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 2, 0>>, <<2, 3, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 3, 1>>>>, <<<<"sm", 1, 1, 0>>>>, <<<<"cy", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 0, 2>>, <<0, 3, 0>>, <<2, 2, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"ld", 3, 1, 0>>>>, <<<<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<0, 0, 0>>, <<0, 1, 0>>, <<1, 0, 1>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"st", 1, 2, 0>>>>, <<<<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 1, 0>>, <<0, 2, 1>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 1, 1>>>>, <<<<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 3, 2>>, <<3, 1, 2>>, <<2, 3, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>>>, <<<<"cy", 1, 1, 1>>>>, <<<<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 1, 0>>, <<0, 0, 0>>, <<0, 3, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>>>, <<<<"xc", 1, 1, 2>>>>, <<<<"cy", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 0, 1>>, <<0, 3, 1>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>>>, <<<<"cy", 1, 1, 2>>>>, <<<<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 3, 0>>, <<0, 0, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>>>, <<<<"sn", 1, 0, 0>>>>, <<<<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 2, 0>>, <<0, 3, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>>>, <<<<"cn", 1, 1, 2>>>>, <<<<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 2, 0>>, <<3, 3, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 3, 1>>>>, <<<<"cy", 1, 1, 1>>>>, <<<<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 0>>, <<1, 1, 1>>, <<3, 2, 1>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>>>, <<<<"cy", 1, 3, 1>>>>, <<<<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 0>>, <<2, 1, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"cn", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 1, 0>>, <<0, 2, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"ld", 1, 1, 0>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 1, 0>>, <<2, 3, 0>>, <<0, 1, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 3, 1>>>>, <<<<"cy", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 3, 0>>, <<3, 1, 2>>, <<2, 1, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>>>, <<<<"cy", 1, 1, 2>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 3, 3>>, <<2, 3, 3>>, <<3, 0, 3>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>>>, <<<<"cy", 1, 3, 1>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 3, 0>>, <<1, 0, 2>>, <<2, 2, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 3, 1>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>>>, <<<<"cn", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 1, 0>>, <<0, 1, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>>>, <<<<"ld", 1, 1, 0>>>>, <<<<"cy", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 1, 3>>, <<3, 3, 3>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>>>, <<<<"ld", 1, 1, 0>>>>, <<<<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 1, 0>>, <<0, 2, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 3, 1>>>>, <<<<"st", 1, 2, 0>>>>, <<<<"cy", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 2, 0>>, <<1, 0, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 3, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 2, 1>>>>, <<<<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 2>>, <<1, 1, 0>>, <<3, 3, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>>>, <<<<"cn", 1, 1, 2>>>>, <<<<"cy", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 3>>, <<2, 0, 0>>, <<3, 2, 3>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 3, 1>>>>, <<<<"cy", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 0, 0>>, <<2, 1, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 1, 1, 1>>>>, <<<<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 1, 0>>, <<1, 2, 0>>, <<2, 1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<0, 0, 0>>, <<1, 2, 1>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>>>, <<<<"xc", 1, 1, 1>>>>, <<<<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 1, 3>>, <<3, 3, 3>>, <<2, 0, 3>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 1, 0>>>>, <<<<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 2, 1>>, <<2, 2, 0>>, <<1, 1, 1>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cy", 1, 1, 1>>>>, <<<<"cy", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 1, 0>>, <<1, 1, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 2, 1>>>>, <<<<"ld", 1, 1, 0>>>>, <<<<"cn", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 0, 0>>, <<0, 0, 1>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>>>, <<<<"xm", 2, 1, 1>>>>, <<<<"cy", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 0>>, <<3, 0, 0>>, <<2, 3, 3>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>>>, <<<<"sm", 1, 1, 0>>>>, <<<<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 1>>, <<2, 0, 1>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>>>, <<<<"xc", 1, 1, 2>>>>, <<<<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 0, 3>>, <<1, 0, 3>>, <<3, 1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sm", 1, 1, 0>>>>, <<<<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 1, 1>>, <<1, 2, 1>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>>>, <<<<"cy", 1, 1, 1>>>>, <<<<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 0>>, <<1, 2, 2>>, <<1, 2, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cn", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 1, 1, 1>>>>, <<<<"cn", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 0, 0>>, <<1, 2, 0>>, <<2, 2, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"st", 1, 2, 0>>>>, <<<<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 0>>, <<0, 3, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>>>, <<<<"cy", 1, 1, 2>>>>, <<<<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 3>>, <<1, 2, 3>>, <<3, 0, 3>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>>>, <<<<"cy", 1, 2, 1>>>>, <<<<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 3, 0>>, <<2, 2, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>>>, <<<<"xc", 1, 1, 2>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 3, 0>>, <<1, 2, 0>>, <<0, 3, 1>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>>>, <<<<"xc", 1, 1, 1>>>>, <<<<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 1, 0>>, <<2, 3, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>>>, <<<<"cy", 1, 2, 1>>>>, <<<<"cy", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 2, 1>>, <<1, 0, 1>>, <<1, 1, 1>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cy", 1, 1, 2>>>>, <<<<"cy", 1, 2, 1>>>>, <<<<"cy", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>] >>
====
