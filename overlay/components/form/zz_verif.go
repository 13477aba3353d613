package form

// Names for the types that the conformance driver needs from form's internal packages.
import "github.com/phoenix-tui/phoenix/components/form/internal/domain/value"

type VModel = value.FieldModel
type VValidator = value.Validator

var (
	VRequired, VEmail      = value.Required, value.Email
	VMinLength, VMaxLength = value.MinLength, value.MaxLength
	VPattern, VCustom      = value.Pattern, value.Custom
)
