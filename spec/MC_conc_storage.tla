---- MODULE MC_conc_storage ----
\* written by lib/scn.py
EXTENDS Conc
Scenarios == <<
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<5, 7, 0>>, <<2, 0, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"xm", 2, 1, 1>>>>, <<<<"st", 1, 2, 0>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 1, 0>>, <<3, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 2>>, <<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 0, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cx", 1, 2, 1>>>>, <<<<"cm", 1, 1, 2>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 0, 0>>, <<3, 1, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>, <<<<"cm", 1, 1, 2>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 3>>, <<3, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"cx", 1, 3, 1>>>>, <<<<"cx", 1, 3, 1>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 2, 0>>, <<1, 1, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 0, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cm", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 2>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"ld", 1, 1, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<6, 4, 3>>, <<2, 0, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"sn", 1, 0, 0>>>>, <<<<"st", 1, 1, 0>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 0, 3>>, <<3, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"sm", 1, 1, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<6, 5, 0>>, <<6, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<6>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"cx", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 3, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 2>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 1>>, <<2, 2, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>, <<<<"ld", 3, 1, 0>>, <<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 1>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 2>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 2>>, <<1, 0, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"cx", 1, 1, 2>>>>, <<<<"st", 1, 2, 0>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 3, 1>>, <<1, 2, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"cm", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 1>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 1>>, <<3, 2, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 1, 1, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 3, 1>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"xc", 1, 1, 1>>>>, <<<<"cx", 1, 1, 1>>, <<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 2, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"st", 1, 2, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 0, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 0, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"cm", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 3, 1>>, <<2, 0, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<4, 6, 0>>, <<7, 5, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<4>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cm", 1, 1, 2>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 1, 7>>, <<5, 2, 7>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"sn", 1, 0, 0>>>>, <<<<"xc", 1, 1, 2>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 0, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<5, 4, 0>>, <<7, 1, 5>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>, <<<<"cx", 1, 2, 1>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<7, 2, 0>>, <<6, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"cx", 1, 1, 2>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 0, 0>>, <<2, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cm", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 0, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"st", 1, 2, 0>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 2, 3>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"xm", 2, 1, 1>>>>, <<<<"st", 1, 2, 0>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 3, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 1, 0>>, <<2, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 3, 2>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cm", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 3, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"xm", 1, 1, 1>>>>, <<<<"cx", 1, 1, 1>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<3, 0, 3>>, <<3, 0, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"st", 1, 2, 0>>>>, <<<<"cx", 1, 3, 1>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 2, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"xm", 1, 1, 1>>>>, <<<<"cx", 1, 2, 1>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<0, 2, 2>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"sn", 1, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 2, 1>>, <<5, 1, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<6, 3, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 3, 3>>, <<3, 2, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"cx", 1, 1, 2>>>>, <<<<"cx", 1, 2, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<0, 1, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 2>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 3, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"xc", 1, 1, 1>>>>, <<<<"cm", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 5, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"cm", 1, 1, 2>>>>, <<<<"st", 1, 2, 0>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 1, 0>>, <<3, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 3, 2>>, <<2, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"xc", 1, 1, 1>>>>, <<<<"cx", 1, 3, 1>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 2>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"cm", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 0, 1>>, <<3, 2, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 2, 1>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 3, 0>>, <<1, 6, 7>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 2, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"xm", 2, 1, 1>>>>, <<<<"sm", 1, 1, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 0, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 0, 2>>, <<0, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"cx", 1, 3, 1>>>>, <<<<"cm", 1, 1, 2>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 0, 2>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<5, 4, 0>>, <<7, 6, 7>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"st", 1, 1, 0>>>>, <<<<"st", 1, 1, 0>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 1, 0>>, <<6, 1, 5>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<1, 0, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sm", 1, 1, 0>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 2, 0>>, <<0, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"cx", 1, 1, 1>>>>, <<<<"cx", 1, 1, 1>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 5, 0>>, <<6, 7, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"st", 1, 2, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 0, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"xm", 2, 1, 1>>>>, <<<<"xm", 2, 1, 1>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 1, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 2, 0>>, <<3, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"sm", 1, 1, 0>>>>, <<<<"xc", 1, 1, 2>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<7, 4, 1>>, <<3, 7, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 3, 3>>, <<2, 2, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"xm", 2, 1, 1>>>>, <<<<"st", 1, 1, 0>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 1, 3>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 1, 1, 1>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 6, 0>>, <<5, 0, 4>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<4>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"cm", 1, 1, 2>>>>, <<<<"cx", 1, 1, 1>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 2>>, <<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<5, 7, 0>>, <<7, 4, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"xm", 2, 1, 1>>>>, <<<<"xc", 1, 1, 1>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 2>>, <<1, 2, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"st", 1, 2, 0>>>>, <<<<"st", 1, 1, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 0, 0>>, <<1, 6, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cm", 1, 1, 2>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 0, 3>>, <<3, 2, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"xc", 1, 1, 1>>>>, <<<<"xc", 1, 1, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 5, 4>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<4>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 2>>, <<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<7, 6, 0>>, <<5, 6, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"cx", 1, 1, 2>>>>, <<<<"xc", 1, 1, 1>>, <<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 0, 2>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"cm", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<6, 2, 7>>, <<1, 4, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>, <<<<"ld", 3, 1, 0>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 2, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"cm", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 2, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"cx", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 2, 1>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 0, 0>>, <<2, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"st", 1, 1, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 2, 2>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<0, 0, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"cx", 1, 2, 1>>>>, <<<<"xc", 1, 1, 2>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<5, 3, 0>>, <<7, 0, 5>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"sn", 1, 0, 0>>>>, <<<<"cx", 1, 1, 1>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 0, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"ld", 1, 1, 0>>>>, <<<<"st", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 3, 0>>, <<2, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"st", 1, 1, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<0, 0, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"xc", 1, 1, 1>>>>, <<<<"cx", 1, 3, 1>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 0>>, <<3, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"cx", 1, 1, 1>>>>, <<<<"cm", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 3, 0>>, <<2, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"ld", 3, 1, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 2, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cm", 1, 1, 2>>>>, <<<<"cx", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 7, 3>>, <<5, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"cx", 1, 3, 1>>>>, <<<<"cm", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<4, 7, 3>>, <<0, 5, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 2, 1>>, <<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<6, 7, 0>>, <<3, 2, 4>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<4>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"cm", 1, 1, 2>>>>, <<<<"cx", 1, 2, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 2>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"sm", 1, 1, 0>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 3, 0>>, <<6, 5, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 1, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 3, 3>>, <<3, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>, <<<<"cx", 1, 1, 2>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 6, 5>>, <<5, 0, 5>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"ld", 1, 1, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"st", 1, 2, 0>>>>, <<<<"cx", 1, 2, 1>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 4, 0>>, <<6, 4, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"sm", 1, 1, 0>>>>, <<<<"sm", 1, 1, 0>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 2, 0>>, <<2, 7, 7>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 1, 0>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 0, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"xc", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"cx", 1, 3, 1>>>>, <<<<"xc", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 0>>, <<2, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"sn", 1, 0, 0>>>>, <<<<"xm", 1, 1, 1>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 2, 2>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"xm", 1, 1, 1>>>>, <<<<"xm", 2, 1, 1>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<4, 6, 3>>, <<7, 2, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cm", 1, 1, 2>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<3, 0, 0>>, <<3, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"st", 1, 2, 0>>>>, <<<<"cx", 1, 1, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cx", 1, 2, 1>>>>, <<<<"cx", 1, 1, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 2, 2>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 1, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 0, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"ld", 1, 1, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<5, 3, 7>>, <<5, 1, 7>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"xc", 1, 1, 1>>>>, <<<<"st", 1, 1, 0>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 0, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"xc", 1, 1, 1>>>>, <<<<"cx", 1, 1, 1>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 6, 3>>, <<6, 4, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 2, 1>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 0, 2>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"cx", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 2, 3>>, <<3, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"sm", 1, 1, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 2, 2>>, <<2, 1, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"cx", 1, 2, 1>>>>, <<<<"xc", 1, 1, 2>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 3>>, <<1, 6, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"st", 1, 1, 0>>>>, <<<<"cm", 1, 1, 2>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<3, 6, 0>>, <<6, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 1, 0>>, <<3, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 2, 1>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 1>>, <<1, 1, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"sn", 1, 0, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 1, 3>>, <<3, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"xc", 1, 1, 2>>>>, <<<<"cx", 1, 1, 1>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 7>>, <<5, 2, 7>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"sn", 1, 0, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 1>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"cx", 1, 2, 1>>, <<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 2, 2>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cx", 1, 1, 2>>>>, <<<<"xm", 2, 1, 1>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<2, 1, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 3>>, <<1, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"cx", 1, 2, 1>>>>, <<<<"ld", 1, 1, 0>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 1, 0>>, <<6, 5, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 0>>, <<7, 5, 4>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<4>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 1, 0>>, <<2, 2, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 0>>, <<2, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"cx", 1, 1, 2>>>>, <<<<"xc", 1, 1, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<6, 6, 7>>, <<4, 4, 7>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"cx", 1, 3, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 2>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 0>>, <<5, 4, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"xm", 2, 1, 1>>>>, <<<<"xm", 1, 1, 1>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 1, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"ld", 1, 1, 0>>>>, <<<<"cx", 1, 2, 1>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 3, 3>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"cx", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 2, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<5, 1, 0>>, <<3, 6, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"xm", 2, 1, 1>>>>, <<<<"xc", 1, 1, 1>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<7, 7, 0>>, <<0, 5, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 1>>, <<1, 0, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 3, 0>>, <<2, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>, <<<<"st", 1, 1, 0>>, <<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 2>>, <<2, 1, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"st", 1, 1, 0>>>>, <<<<"st", 1, 2, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<7, 1, 1>>, <<3, 6, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 0, 2>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 1, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<5, 6, 5>>, <<7, 5, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"sm", 1, 1, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 2, 0>>, <<2, 2, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"xc", 1, 1, 1>>>>, <<<<"cm", 1, 1, 2>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 0, 1>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"ld", 3, 1, 0>>>>, <<<<"cx", 1, 1, 2>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 2, 3>>, <<3, 0, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"cx", 1, 1, 1>>>>, <<<<"cm", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 2, 1>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 3, 3>>, <<3, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"ld", 1, 1, 0>>>>, <<<<"cx", 1, 1, 2>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 0, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 1, 0>>, <<1, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"cx", 1, 1, 2>>>>, <<<<"xc", 1, 1, 1>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 5, 0>>, <<0, 6, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"xm", 2, 1, 1>>>>, <<<<"st", 1, 2, 0>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 4>>, <<4, 1, 4>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<4>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"st", 1, 2, 0>>>>, <<<<"sm", 1, 1, 0>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 1, 3>>, <<6, 4, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"cx", 1, 3, 1>>>>, <<<<"xc", 1, 1, 2>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 1, 1>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cx", 1, 3, 1>>>>, <<<<"cm", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 0, 0>>, <<0, 1, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"xm", 1, 1, 1>>>>, <<<<"st", 1, 1, 0>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<5, 1, 5>>, <<5, 4, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"xc", 1, 1, 1>>>>, <<<<"cm", 1, 1, 2>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 0, 0>>, <<2, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cx", 1, 1, 1>>>>, <<<<"xm", 2, 1, 1>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 2, 0>>, <<2, 2, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 3, 0>>, <<2, 2, 4>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<4>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 0, 5>>, <<2, 1, 5>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<3, 0, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"sm", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 7, 0>>, <<1, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"xc", 1, 1, 1>>>>, <<<<"cx", 1, 2, 1>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<3, 0, 0>>, <<0, 6, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"cx", 1, 1, 1>>>>, <<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 2, 3>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"cx", 1, 3, 1>>>>, <<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<4, 5, 5>>, <<2, 4, 5>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"st", 1, 1, 0>>>>, <<<<"cx", 1, 3, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 3, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"cx", 1, 2, 1>>>>, <<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 2, 3>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"cm", 1, 1, 2>>>>, <<<<"sm", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<7, 6, 0>>, <<3, 4, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"cx", 1, 3, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 1, 1, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 7, 0>>, <<4, 5, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 0, 3>>, <<2, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"xm", 1, 1, 1>>>>, <<<<"xc", 1, 1, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 0, 0>>, <<2, 0, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"xm", 2, 1, 1>>>>, <<<<"ld", 3, 1, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 5, 0>>, <<2, 5, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"cx", 1, 2, 1>>>>, <<<<"xm", 2, 1, 1>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<5, 2, 3>>, <<3, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"cm", 1, 1, 2>>>>, <<<<"cx", 1, 1, 1>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<6, 0, 6>>, <<6, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<6>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"sm", 1, 1, 0>>>>, <<<<"xc", 1, 1, 2>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<6, 0, 1>>, <<6, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"xc", 1, 1, 2>>>>, <<<<"ld", 1, 1, 0>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<6, 0, 0>>, <<5, 5, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"cx", 1, 1, 1>>>>, <<<<"xc", 1, 1, 2>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 5, 0>>, <<3, 2, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"st", 1, 2, 0>>>>, <<<<"st", 1, 1, 0>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 3>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 2, 2>>, <<2, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"cx", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 2, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 1, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"cx", 1, 3, 1>>>>, <<<<"xm", 1, 1, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<4, 5, 0>>, <<4, 2, 4>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<4>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"cx", 1, 3, 1>>>>, <<<<"st", 1, 1, 0>>, <<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"cx", 1, 1, 1>>>>, <<<<"sn", 1, 0, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<0, 3, 0>>, <<0, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cx", 1, 1, 1>>>>, <<<<"sm", 1, 1, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 1, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"cx", 1, 2, 1>>>>, <<<<"ld", 3, 1, 0>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 2>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"ld", 1, 1, 0>>>>, <<<<"st", 1, 1, 0>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 2, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"xm", 2, 1, 1>>>>, <<<<"xc", 1, 1, 1>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 3, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<4, 6, 0>>, <<3, 4, 7>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 2>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 1, 0>>, <<1, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"st", 1, 2, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<7, 3, 1>>, <<3, 1, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"xm", 1, 1, 1>>>>, <<<<"cx", 1, 1, 2>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 2, 4>>, <<6, 0, 4>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<4>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"cx", 1, 1, 1>>>>, <<<<"st", 1, 2, 0>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 3, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"xm", 1, 1, 1>>>>, <<<<"cx", 1, 1, 1>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 0, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<4, 7, 0>>, <<6, 6, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<4>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"sn", 1, 0, 0>>>>, <<<<"st", 1, 1, 0>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<5, 4, 1>>, <<2, 6, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"cx", 1, 2, 1>>>>, <<<<"xm", 1, 1, 1>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 2, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"st", 1, 2, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"xm", 2, 1, 1>>>>, <<<<"xc", 1, 1, 1>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<3, 3, 3>>, <<3, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"cx", 1, 2, 1>>>>, <<<<"cx", 1, 1, 1>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 6, 1>>, <<4, 7, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"st", 1, 2, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 0, 3>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"xc", 1, 1, 1>>>>, <<<<"sm", 1, 1, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 2, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"xc", 1, 1, 1>>>>, <<<<"xc", 1, 1, 2>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 1, 0>>, <<3, 3, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"st", 1, 2, 0>>>>, <<<<"st", 1, 1, 0>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 5, 5>>, <<0, 4, 5>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"ld", 1, 1, 0>>>>, <<<<"cx", 1, 1, 2>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"cx", 1, 1, 1>>>>, <<<<"sn", 1, 0, 0>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 3, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>, <<<<"st", 1, 2, 0>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<0, 0, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cm", 1, 1, 2>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<5, 1, 1>>, <<3, 6, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 1>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 2, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 1, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 1>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>, <<<<"st", 1, 2, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 2, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"cx", 1, 1, 1>>>>, <<<<"st", 1, 1, 0>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<0, 1, 1>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 3, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 2, 2>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 2, 1>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 3>>, <<3, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<2, 0, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"cx", 1, 3, 1>>>>, <<<<"st", 1, 2, 0>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 2, 7>>, <<7, 5, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"sm", 1, 1, 0>>>>, <<<<"cx", 1, 3, 1>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 0, 3>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<4, 6, 0>>, <<0, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"cm", 1, 1, 2>>>>, <<<<"xm", 2, 1, 1>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 4, 7>>, <<7, 6, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"st", 1, 2, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<2, 2, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"ld", 3, 1, 0>>>>, <<<<"st", 1, 1, 0>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<3, 0, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"sn", 1, 0, 0>>>>, <<<<"cm", 1, 1, 2>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 1, 0>>, <<0, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"cx", 1, 1, 1>>>>, <<<<"xc", 1, 1, 1>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 5, 0>>, <<4, 6, 5>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 1, 1, 1>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 0, 1>>, <<3, 2, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 2, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 3, 3>>, <<2, 2, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"cx", 1, 1, 2>>>>, <<<<"xm", 1, 1, 1>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 1, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"sm", 1, 1, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 0, 0>>, <<5, 7, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"xm", 1, 1, 1>>>>, <<<<"cx", 1, 1, 2>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<1, 0, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"xm", 1, 1, 1>>>>, <<<<"cm", 1, 1, 2>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 1>>, <<2, 1, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"sm", 1, 1, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 2, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"xm", 1, 1, 1>>>>, <<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, -1, 0>>, s |-> <<<<0, 3, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"cx", 1, 3, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 1, 0>>, <<4, 5, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"xc", 1, 1, 1>>>>, <<<<"xm", 1, 1, 1>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 4, 0>>, <<4, 6, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"cm", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 3, 1>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 2>>, <<0, 3, 2>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"sm", 1, 1, 0>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 4>>, <<0, 7, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<4>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"xc", 1, 1, 2>>>>, <<<<"cx", 1, 1, 2>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<7, 7, 1>>, <<5, 0, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"ld", 1, 1, 0>>>>, <<<<"xm", 1, 1, 1>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<1, 0, 1>>, <<1, 0, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"xm", 2, 1, 1>>>>, <<<<"ld", 3, 1, 0>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<0, 2, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"cx", 1, 2, 1>>>>, <<<<"st", 1, 1, 0>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<0, 1, 3>>, <<3, 1, 3>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"xm", 1, 1, 1>>>>, <<<<"ld", 3, 1, 0>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<0, 0, 1>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<6, 7, 0>>, <<1, 1, 0>>, <<6, 4, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>>>, <<<<"xm", 2, 1, 1>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<0, 2, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>>>, <<<<"cx", 1, 1, 2>>>>, <<<<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 2, 2>>, <<2, 1, 0>>, <<1, 3, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>>>, <<<<"cx", 1, 3, 1>>>>, <<<<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 2, 2>>, <<2, 1, 2>>, <<3, 2, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>>>, <<<<"st", 1, 1, 0>>>>, <<<<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, -1>>, s |-> <<<<0, 0, 0>>, <<0, 2, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>>>, <<<<"st", 1, 2, 0>>>>, <<<<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<4, 2, 7>>, <<6, 5, 0>>, <<5, 1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>>>, <<<<"st", 1, 2, 0>>>>, <<<<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 2, 0>>, <<2, 3, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>>>, <<<<"sm", 1, 1, 0>>>>, <<<<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<4, 5, 0>>, <<6, 1, 5>>, <<5, 3, 5>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>>>, <<<<"st", 1, 1, 0>>>>, <<<<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<2, 0, 2>>, <<0, 3, 0>>, <<2, 2, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"ld", 3, 1, 0>>>>, <<<<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<0, 0, 0>>, <<0, 1, 0>>, <<1, 0, 1>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"st", 1, 2, 0>>>>, <<<<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<6, 3, 4>>, <<3, 3, 4>>, <<6, 7, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<4>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 2>>>>, <<<<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 1, 0>>, <<0, 2, 1>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 1>>>>, <<<<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<5, 1, 5>>, <<0, 7, 5>>, <<1, 6, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<5>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>>>, <<<<"cx", 1, 1, 1>>>>, <<<<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 3, 2>>, <<3, 1, 2>>, <<2, 3, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>>>, <<<<"cx", 1, 1, 1>>>>, <<<<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 1, 0>>, <<0, 0, 0>>, <<0, 3, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>>>, <<<<"xc", 1, 1, 2>>>>, <<<<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 0, 1>>, <<0, 3, 1>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>>>, <<<<"cx", 1, 1, 2>>>>, <<<<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 3, 0>>, <<0, 0, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>>>, <<<<"sn", 1, 0, 0>>>>, <<<<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 2, 0>>, <<0, 3, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>>>, <<<<"cm", 1, 1, 2>>>>, <<<<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 2, 0>>, <<3, 3, 0>>, <<0, 1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>>>, <<<<"cx", 1, 1, 1>>>>, <<<<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 0>>, <<1, 1, 1>>, <<3, 2, 1>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>>>, <<<<"cx", 1, 3, 1>>>>, <<<<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 1, 4>>, <<4, 7, 0>>, <<4, 3, 4>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<4>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"sm", 1, 1, 0>>>>, <<<<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 5, 0>>, <<0, 4, 0>>, <<0, 7, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>>>, <<<<"sm", 1, 1, 0>>>>, <<<<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 0>>, <<2, 1, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"cm", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 1, 0>>, <<0, 2, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"ld", 1, 1, 0>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 1, 0>>, <<2, 3, 0>>, <<0, 1, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 3, 1>>>>, <<<<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 3, 0>>, <<3, 1, 2>>, <<2, 1, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>>>, <<<<"cx", 1, 1, 2>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 3, 3>>, <<2, 3, 3>>, <<3, 0, 3>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>>>, <<<<"cx", 1, 3, 1>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 3, 0>>, <<1, 0, 2>>, <<2, 2, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>>>, <<<<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<7, 1, 0>>, <<3, 1, 7>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<7>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>>>, <<<<"cm", 1, 1, 2>>>>, <<<<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 1, 0>>, <<0, 1, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>>>, <<<<"ld", 1, 1, 0>>>>, <<<<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 6, 0>>, <<1, 5, 0>>, <<2, 2, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>>>, <<<<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 1, 3>>, <<3, 3, 3>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>>>, <<<<"ld", 1, 1, 0>>>>, <<<<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<4, 2, 0>>, <<2, 1, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>>>, <<<<"cx", 1, 3, 1>>>>, <<<<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 1, 0>>, <<0, 2, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>>>, <<<<"st", 1, 2, 0>>>>, <<<<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 5, 0>>, <<5, 1, 0>>, <<0, 7, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>>>, <<<<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 2, 0>>, <<1, 0, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 2, 1>>>>, <<<<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 2>>, <<1, 1, 0>>, <<3, 3, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>>>, <<<<"cm", 1, 1, 2>>>>, <<<<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<2, 1, 3>>, <<2, 0, 0>>, <<3, 2, 3>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 3, 1>>>>, <<<<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 0, 0>>, <<2, 1, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 1, 1, 1>>>>, <<<<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 1, 0>>, <<1, 2, 0>>, <<2, 1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 1, 0>>, <<0, 0, 0>>, <<1, 2, 1>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>>>, <<<<"xc", 1, 1, 1>>>>, <<<<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 1, 3>>, <<3, 3, 3>>, <<2, 0, 3>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 1, 0>>>>, <<<<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 2, 1>>, <<2, 2, 0>>, <<1, 1, 1>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 1>>>>, <<<<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<0, 1, 0>>, <<1, 1, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>>>, <<<<"ld", 1, 1, 0>>>>, <<<<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 0, 0>>, <<0, 0, 1>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>>>, <<<<"xm", 2, 1, 1>>>>, <<<<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 0, 0>>, <<1, 2, 3>>, <<2, 1, 3>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>>>, <<<<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 0>>, <<3, 0, 0>>, <<2, 3, 3>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>>>, <<<<"sm", 1, 1, 0>>>>, <<<<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 3, 1>>, <<2, 0, 1>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>>>, <<<<"xc", 1, 1, 2>>>>, <<<<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<0, 3, 0>>, <<5, 5, 0>>, <<0, 5, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>>>, <<<<"cm", 1, 1, 2>>>>, <<<<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<3, 0, 3>>, <<1, 0, 3>>, <<3, 1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sm", 1, 1, 0>>>>, <<<<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<1, 1, 1>>, <<1, 2, 1>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>>>, <<<<"cx", 1, 1, 1>>>>, <<<<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 0>>, <<1, 2, 2>>, <<1, 2, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 1, 1, 1>>>>, <<<<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<1, 0, 0>>, <<1, 2, 0>>, <<2, 2, 2>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"st", 1, 2, 0>>>>, <<<<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>, <<0, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 5, 0>>, <<6, 1, 0>>, <<3, 0, 1>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 2>>>>, <<<<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, 0>>, s |-> <<<<1, 3, 0>>, <<0, 3, 0>>, <<1, 1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>>>, <<<<"cx", 1, 1, 2>>>>, <<<<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<3, 2, 3>>, <<1, 2, 3>>, <<3, 0, 3>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>>>, <<<<"cx", 1, 2, 1>>>>, <<<<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-1, 0, 0>>, s |-> <<<<3, 3, 0>>, <<2, 2, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<3>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>>>, <<<<"xc", 1, 1, 2>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 3, 0>>, <<1, 2, 0>>, <<0, 3, 1>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>>>, <<<<"xc", 1, 1, 1>>>>, <<<<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, 0>>, s |-> <<<<0, 1, 0>>, <<2, 3, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<0>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>>>, <<<<"cx", 1, 2, 1>>>>, <<<<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, 0, -1>>, s |-> <<<<2, 2, 1>>, <<1, 0, 1>>, <<1, 1, 1>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>>>, <<<<"cx", 1, 2, 1>>>>, <<<<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0, 0>>>>] >>
====
