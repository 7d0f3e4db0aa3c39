/* Contracts for src/tree_evaluation.c. */
//@property C15
//@assume the objective space and its expressions by contract: any objectives, any values, possibly an error
//@assume not-a-number objective values are outside the domain of the comparison (they compare equal to every float)
//@assume configurations and features by contract: cmp is an order, equal ones hash alike (C02)
#define EV tree_evaluation
#define EV_FILE "tree_evaluation.c"
#define EVTYPE CCS_OBJECT_TYPE_TREE_EVALUATION
#define CFT CCS_OBJECT_TYPE_TREE_CONFIGURATION
#define FEAT 0
#include "eval.inc"
//@unit tev_create prop=C12,C14 unwind=5 bounded="2 parameters" flags="--memory-leak-check" funcs=ccs_create_tree_evaluation,_ccs_tree_evaluation_del
void
h_tev_create(void)
{
	t_create();
	V_REACH("end");
}
//@unit tev_access prop=C14 unwind=6 bounded="2 parameters" funcs=ccs_tree_evaluation_get_value,ccs_tree_evaluation_get_values,ccs_tree_evaluation_set_value,ccs_tree_evaluation_get_value_by_name
void
h_tev_access(void)
{
	t_access();
	V_REACH("end");
}
//@unit tev_cmp prop=C02 unwind=9 bounded="2 parameters" funcs=ccs_tree_evaluation_cmp
void
h_tev_cmp(void)
{
	t_cmp();
	V_REACH("end");
}
//@unit tev_hash prop=C02 unwind=9 bounded="2 parameters" funcs=ccs_tree_evaluation_hash
void
h_tev_hash(void)
{
	t_hash();
	V_REACH("end");
}
//@unit tev_compare prop=C15 unwind=5 bounded="up to 3 objectives" funcs=ccs_tree_evaluation_compare
void
h_tev_compare(void)
{
	t_compare();
	V_REACH("end");
}
//@unit tev_compare_refuse prop=C15 unwind=5 bounded="up to 3 objectives" funcs=ccs_tree_evaluation_compare
void
h_tev_compare_refuse(void)
{
	t_compare_refuse();
	V_REACH("end");
}
//@unit tev_objectives prop=C14,C15 unwind=6 bounded="up to 3 objectives" funcs=ccs_tree_evaluation_get_objective_value,ccs_tree_evaluation_get_objective_values
void
h_tev_objectives(void)
{
	t_objectives();
	V_REACH("end");
}
