/* linked between the harness and everything that an execution may change */
char sc_data_from[16] __attribute__ ((aligned (16))) = { 1 };
char sc_bss_from[16] __attribute__ ((aligned (16)));
