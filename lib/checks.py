from checks_copy import COPY_CHECKS
from checks_env import ENV_CHECKS
from checks_fault import FAULT_CHECKS
from checks_fields import FIELD_CHECKS
from checks_meta import META_CHECKS
from checks_more import MORE_CHECKS
from checks_output import OUTPUT_CHECKS
from checks_values import VALUE_CHECKS
ALL = {**FIELD_CHECKS, **VALUE_CHECKS, **OUTPUT_CHECKS, **META_CHECKS, **ENV_CHECKS, **MORE_CHECKS, **FAULT_CHECKS, **COPY_CHECKS}
