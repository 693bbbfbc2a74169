# github.com/google/uuid: New makes a random UUID, String renders it as 36 characters.
package github.com/google/uuid
extern func New() result
extern func (u UUID) String() result
  ensures result != ""
