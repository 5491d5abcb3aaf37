# Import matchers from the refwilson package

import refwilson
