/* Contracts for src/tree_tuner_random.c and src/tree_tuner.c. */
//@property C16
//@assume evaluations by contract: compare is the dominance of C15 over their objective values, an error between different objective spaces
//@assume sampling and random numbers by contract
#define TN tree_tuner
#define TN_INT "tree_tuner_internal.h"
#define TN_FILE "tree_tuner.c"
#define TNR_FILE "tree_tuner_random.c"
#define TDS _ccs_random_tree_tuner_data_s
#define EVN tree_evaluation
#define EVN_INT "tree_evaluation_internal.h"
#define EVTYPE CCS_OBJECT_TYPE_TREE_EVALUATION
#define TNTYPE CCS_OBJECT_TYPE_TREE_TUNER
#define TNR_TYPE CCS_TREE_TUNER_TYPE_RANDOM
#define TYPE_T ccs_tree_tuner_type_t
#define SPACE tree_space
#define SPACE_T ccs_tree_space_t
#define SPACE_TYPE CCS_OBJECT_TYPE_TREE_SPACE
#define CFG_T ccs_tree_configuration_t
#define CFG_TYPE CCS_OBJECT_TYPE_TREE_CONFIGURATION
#define SAMPLES ccs_tree_space_samples
#define GET_RNG ccs_tree_space_get_rng
#define GET_SPACE ccs_tree_tuner_get_tree_space
#define FEAT 0
#define FSP(x)
#include "tuner.inc"
//@unit ttun_tell cases=26 prop=C16 unwind=10 bounded="up to 3 optima (any number of evaluations in the history)" funcs=ccs_tree_tuner_tell,_ccs_tree_tuner_random_tell
void h_ttun_tell(void) { t_tell(); V_REACH("end"); }
//@unit ttun_tell2 cases=10 prop=C16 unwind=10 bounded="two evaluations told at once to a tuner with one optimum, ten patterns of objective values" funcs=ccs_tree_tuner_tell,_ccs_tree_tuner_random_tell
void h_ttun_tell2(void) { t_tell2(); V_REACH("end"); }
//@unit ttun_lists cases=2 prop=C14,C16 unwind=10 bounded="3 optima, 4 evaluations" funcs=ccs_tree_tuner_get_optima,ccs_tree_tuner_get_history,_ccs_tree_tuner_random_get_optima,_ccs_tree_tuner_random_get_history
void h_ttun_lists(void) { t_lists(); V_REACH("end"); }
//@unit ttun_suggest cases=4 prop=C16 unwind=10 bounded="up to 3 optima" funcs=ccs_tree_tuner_suggest,ccs_tree_tuner_ask,_ccs_tree_tuner_random_suggest,_ccs_tree_tuner_random_ask
void h_ttun_suggest(void) { t_suggest(); V_REACH("end"); }
//@unit ttun_oom cases=3 prop=C12,C16 unwind=10 bounded="two optima" flags="--memory-leak-check" funcs=_ccs_tree_tuner_random_tell
void h_ttun_oom(void) { t_tell_oom(); V_REACH("end"); }
//@unit ttun_create cases=8 prop=C12,C14 unwind=10 bounded="name of up to 2 characters, one evaluation told" flags="--memory-leak-check" funcs=ccs_create_random_tree_tuner,_ccs_tree_tuner_random_del,ccs_tree_tuner_get_name,ccs_tree_tuner_get_type,ccs_tree_tuner_get_tree_space,ccs_tree_tuner_get_objective_space
void h_ttun_create(void) { t_create(); V_REACH("end"); }
