/* Contracts for src/tuner_random.c and src/tuner.c. */
//@property C16
//@assume evaluations by contract: compare is the dominance of C15 over their objective values, an error between different objective spaces
//@assume sampling and random numbers by contract
#define TN tuner
#define TN_INT "tuner_internal.h"
#define TN_FILE "tuner.c"
#define TNR_FILE "tuner_random.c"
#define TDS _ccs_random_tuner_data_s
#define EVN evaluation
#define EVN_INT "evaluation_internal.h"
#define EVTYPE CCS_OBJECT_TYPE_EVALUATION
#define TNTYPE CCS_OBJECT_TYPE_TUNER
#define TNR_TYPE CCS_TUNER_TYPE_RANDOM
#define TYPE_T ccs_tuner_type_t
#define SPACE configuration_space
#define SPACE_T ccs_configuration_space_t
#define SPACE_TYPE CCS_OBJECT_TYPE_CONFIGURATION_SPACE
#define CFG_T ccs_configuration_t
#define CFG_TYPE CCS_OBJECT_TYPE_CONFIGURATION
#define SAMPLES ccs_configuration_space_samples
#define GET_RNG ccs_configuration_space_get_rng
#define GET_SPACE ccs_tuner_get_configuration_space
#define FEAT 0
#define FSP(x)
#include "tuner.inc"
//@unit tun_tell cases=26 prop=C16 unwind=10 bounded="up to 3 optima (any number of evaluations in the history)" funcs=ccs_tuner_tell,_ccs_tuner_random_tell
void h_tun_tell(void) { t_tell(); V_REACH("end"); }
//@unit tun_tell2 cases=10 prop=C16 unwind=10 bounded="two evaluations told at once to a tuner with one optimum, ten patterns of objective values" funcs=ccs_tuner_tell,_ccs_tuner_random_tell
void h_tun_tell2(void) { t_tell2(); V_REACH("end"); }
//@unit tun_lists cases=2 prop=C14,C16 unwind=10 bounded="3 optima, 4 evaluations" funcs=ccs_tuner_get_optima,ccs_tuner_get_history,_ccs_tuner_random_get_optima,_ccs_tuner_random_get_history
void h_tun_lists(void) { t_lists(); V_REACH("end"); }
//@unit tun_suggest cases=4 prop=C16 unwind=10 bounded="up to 3 optima" funcs=ccs_tuner_suggest,ccs_tuner_ask,_ccs_tuner_random_suggest,_ccs_tuner_random_ask
void h_tun_suggest(void) { t_suggest(); V_REACH("end"); }
//@unit tun_oom cases=3 prop=C12,C16 unwind=10 bounded="two optima" flags="--memory-leak-check" funcs=_ccs_tuner_random_tell
void h_tun_oom(void) { t_tell_oom(); V_REACH("end"); }
//@unit tun_create cases=8 prop=C12,C14 unwind=10 bounded="name of up to 2 characters, one evaluation told" flags="--memory-leak-check" funcs=ccs_create_random_tuner,_ccs_tuner_random_del,ccs_tuner_get_name,ccs_tuner_get_type,ccs_tuner_get_configuration_space,ccs_tuner_get_objective_space
void h_tun_create(void) { t_create(); V_REACH("end"); }
