---------------------------- MODULE Cluster_Trace ----------------------------
EXTENDS Cluster, Json, IOUtils
VARIABLES tid, l, s, bad
TraceData == JsonDeserialize(IOEnv.TRACE_FILE)
TC == INSTANCE TraceCheck WITH Traces <- TraceData, InitOf <- Init, StepOf <- Step,
                               ClausesOf <- Clauses, FailingOf <- Failing
Spec == TC!TraceSpec
=============================================================================
