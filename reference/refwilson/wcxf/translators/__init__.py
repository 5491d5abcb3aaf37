# Import translators from the refwilson package

import refwilson
