package clipboard

// What the conformance driver needs from clipboard's internal packages.
import (
	"os"
	"time"

	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/service"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
	"github.com/phoenix-tui/phoenix/clipboard/internal/infrastructure/osc52"
)

// VProvider is a provider made of functions.
type VProvider struct {
	ReadF  func() (data []byte, mime string, err error)
	WriteF func(data []byte, mime string) error
	AvailF func() bool
	NameS  string
}

func (p *VProvider) Read() (*model.ClipboardContent, error) {
	d, m, err := p.ReadF()
	if err != nil {
		return nil, err
	}
	return model.NewClipboardContent(d, value.MIMEType(m), value.EncodingUTF8)
}
func (p *VProvider) Write(c *model.ClipboardContent) error {
	return p.WriteF(c.Data(), c.MIMEType().String())
}
func (p *VProvider) IsAvailable() bool { return p.AvailF() }
func (p *VProvider) Name() string      { return p.NameS }

// VMoveTime gives every history entry the time f says.
func VMoveTime(c *Clipboard, f func(id string, t time.Time) time.Time) {
	for _, e := range c.manager.GetHistory() {
		model.VSetTime(e, f(e.ID(), e.Timestamp()))
	}
}

// VSetGlobal replaces the clipboard behind the package functions.
func VSetGlobal(c *Clipboard) { globalClipboard = c }

// VOSC52 writes text through an OSC 52 provider whose terminal is out.
func VOSC52(out *os.File, text string) error {
	c, err := model.NewTextContent(text)
	if err != nil {
		return err
	}
	return osc52.NewProvider(10 * time.Second).WithOutput(out).Write(c)
}

type VStyles = value.TextStyles

func VCodec() *service.RichTextCodec { return service.NewRichTextCodec() }

func VWriteStyled(c *Clipboard, text string, st VStyles) error {
	return c.manager.WriteStyledText(text, st)
}
func VReadStyled(c *Clipboard) (string, VStyles, error) { return c.manager.ReadStyledText() }
