/* Contracts for src/evaluation.c. */
//@property C15
//@assume the objective space and its expressions by contract: any objectives, any values, possibly an error
//@assume not-a-number objective values are outside the domain of the comparison (they compare equal to every float)
//@assume configurations and features by contract: cmp is an order, equal ones hash alike (C02)
#define EV evaluation
#define EV_FILE "evaluation.c"
#define EVTYPE CCS_OBJECT_TYPE_EVALUATION
#define CFT CCS_OBJECT_TYPE_CONFIGURATION
#define FEAT 0
#include "eval.inc"
//@unit ev_create prop=C12,C14 unwind=5 bounded="2 parameters" flags="--memory-leak-check" funcs=ccs_create_evaluation,_ccs_evaluation_del
void
h_ev_create(void)
{
	t_create();
	V_REACH("end");
}
//@unit ev_access prop=C14 unwind=6 bounded="2 parameters" funcs=ccs_evaluation_get_value,ccs_evaluation_get_values,ccs_evaluation_set_value,ccs_evaluation_get_value_by_name
void
h_ev_access(void)
{
	t_access();
	V_REACH("end");
}
//@unit ev_cmp prop=C02 unwind=9 bounded="2 parameters" funcs=ccs_evaluation_cmp
void
h_ev_cmp(void)
{
	t_cmp();
	V_REACH("end");
}
//@unit ev_hash prop=C02 unwind=9 bounded="2 parameters" funcs=ccs_evaluation_hash
void
h_ev_hash(void)
{
	t_hash();
	V_REACH("end");
}
//@unit ev_compare prop=C15 unwind=5 bounded="up to 3 objectives" funcs=ccs_evaluation_compare
void
h_ev_compare(void)
{
	t_compare();
	V_REACH("end");
}
//@unit ev_compare_refuse prop=C15 unwind=5 bounded="up to 3 objectives" funcs=ccs_evaluation_compare
void
h_ev_compare_refuse(void)
{
	t_compare_refuse();
	V_REACH("end");
}
//@unit ev_objectives prop=C14,C15 unwind=6 bounded="up to 3 objectives" funcs=ccs_evaluation_get_objective_value,ccs_evaluation_get_objective_values
void
h_ev_objectives(void)
{
	t_objectives();
	V_REACH("end");
}
